"""Memory, ghost state and the contracts of the external functions.

Everything the library calls but does not define is given a contract here:
allocators, the members of the opaque element types, operator new/delete and
the C++ exception runtime.  A violated precondition is a Violation; the
postcondition updates the ghost state.
"""
import re
import subprocess
import z3
from .exec import (Violation, Undecided, Unwind, Exc, Ptr, FnPtr, Obj, Inst, UNDEF, NULL,
                   is_sym, norm, bv, tobool, M64)

V = z3.DeclareSort('V')             # values of opaque objects
B64 = z3.BitVecSort(64)
CLS = z3.Function('cls', B64, z3.IntSort())      # equality class of an allocator
SOCC = z3.Function('socc', B64, B64)
EQ = z3.Function('EQ', V, V, z3.BoolSort())
LT = z3.Function('LT', V, V, z3.BoolSort())
HASH = z3.Function('HASH', V, B64)
_uf = {}


def uf(name, n):
    k = (name, n)
    if k not in _uf:
        _uf[k] = z3.Function(name, *([V] * n + [V])) if n else z3.Const(name, V)
    return _uf[k]


def ufapp(name, args):
    f = uf(name, len(args))
    return f(*args) if args else f


_dem = {}


def demangle_all(names):
    todo = [n for n in names if n not in _dem]
    if not todo:
        return
    out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(todo), text=True,
                         capture_output=True).stdout.split('\n')
    for n, o in zip(todo, out):
        _dem[n] = o


def dem(n):
    if n not in _dem:
        demangle_all([n])
    return _dem[n]


PLAINF = {'int': [(0, 4)], 'PlainS': [(0, 4), (8, 8)]}
STD_ID = 0                           # the (only) identity of a stateless allocator

# fundamental type infos cannot be caught by unrelated handlers
FUND = {'_ZTIi', '_ZTIPKc', '_ZTIb', '_ZTIl'}
DERIV = {  # std exception hierarchy
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc', '_ZTISt9exception'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'],
}

MEMBER = re.compile(r'^(?:.* )?(\w+)::(~?\w+|operator[^\w\s(]+|operator\(\)|operator new|operator delete)(<.*>)?\((.*)\)( const)?( ?&&?)?$')
FREEOP = re.compile(r'^(?:.* )?operator([^\w\s(]+)\((.*)\)$')
HASHFN = re.compile(r'^std::hash<(\w+)>::operator\(\)\((.*)\) const$')


def split_params(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


VPT = 1024       # where a virtual-table pointer points into the object that stands for the table


class Classes:
    """the opaque classes of a harness module"""

    def __init__(self, mod):
        self.size, self.align, self.plain, self.triv, self.poly = {}, {}, set(), set(), set()
        self.bases = {}      # (derived, base) -> offset
        self.vbase = {}      # derived -> offset of its virtual base (kept in its virtual table)
        for g, d in mod.globals.items():
            if g.startswith('vxclass_'):
                vals = [o[1] for _, o in d['init'][1]] if d['init'][0] == 'agg' else [0, 0, 0, 0]
                c = g[8:]
                self.size[c], self.align[c] = vals[0], vals[1]
                if vals[2]:
                    # trivially copyable: plain memory, or an object that bytewise copies copy
                    (self.plain if c in PLAINF else self.triv).add(c)
                if vals[3]:
                    self.poly.add(c)
        demangle_all(list(mod.funcs) + list(mod.decls))
        self.ext = {}
        for n in mod.decls:
            r = self.parse(dem(n))
            if r:
                self.ext[n] = r

    def parse(self, d):
        m = HASHFN.match(d)
        if m and m.group(1) in self.size:
            return ('hash', m.group(1))
        m = MEMBER.match(d)
        if m and m.group(1) in self.size:
            c, fn, tmpl, ps = m.group(1), m.group(2), m.group(3), split_params(m.group(4))
            if fn == c:
                return ('ctor', c, self.kind(c, ps, tmpl), ps)
            if fn == '~' + c:
                return ('dtor', c)
            if fn == 'operator=':
                return ('assign', c, self.kind(c, ps, tmpl), ps)
            if fn == 'operator&':
                return ('amp', c)
            return ('bad', c, fn)
        m = FREEOP.match(d)
        if m:
            ps = split_params(m.group(2))
            if len(ps) == 2:
                cs = [re.sub(r' const&$', '', p) for p in ps]
                if any(c in self.size for c in cs):
                    return ('cmp', m.group(1), cs[0], cs[1])
        return None

    @staticmethod
    def kind(c, ps, tmpl):
        if tmpl:
            return 'tmpl(%s)' % ','.join(ps)
        if not ps:
            return 'default'
        if len(ps) == 1:
            k = {c + ' const&': 'copy', c + '&&': 'move', c + '&': 'nccopy', c + ' const&&': 'cmove'}.get(ps[0])
            if k:
                return k
        return 'args(%s)' % ','.join(ps)


class World:
    fundamental_ti = FUND

    def __init__(self, mod, classes, ctx, cfg):
        self.m, self.cl, self.ctx, self.cfg = mod, classes, ctx, cfg
        self.n = 0
        self.globals = {}
        self.events = []
        self.log = []            # external calls, for the native replay
        self.blocks = []         # heap blocks in allocation order
        self.writes = []         # stores to memory that existed before the operation
        self.auth = {}
        self.atomic = False
        self.hooks = cfg.get('hooks', False)
        self.iae = cfg.get('iae', False)
        self.nothrow = False
        self.chk = {}            # safety obligations generated on this path
        self.threw = []          # exceptions raised by external functions
        self.excs = {}
        self.exc_objs = {}
        self.fresh_n = 0
        self.record = False
        self.eqpairs = set()
        self.modular = {}
        self.pending = None
        self.tied = {}           # object -> handle that is a member of it
        self.side = []           # (clause, goal, message): solver obligations raised mid-path

    # ---- utilities
    def pretty(self, name):
        return dem(name)

    def nid(self):
        self.n += 1
        return self.n

    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const('%s_%d' % (base, self.fresh_n), sort)

    def new_obj(self, name, kind, size, align):
        return Obj(name, kind, size, align, self.nid())

    def end_stack(self, ex, o):
        o.live = False
        for l in o.inst.values():
            for x in l:
                if x.alive:
                    raise Violation('lifetime', 'automatic object %r goes away without being destroyed' % x)

    def clsof(self, idv):
        return CLS(bv(idv, 64))

    def same_alloc(self, a, b):
        """z3/py bool: allocators a and b compare equal"""
        if self.iae:
            return True
        if a is UNDEF or b is UNDEF:
            return False
        if not is_sym(a) and not is_sym(b) and a == b:
            return True
        r = z3.simplify(self.clsof(a) == self.clsof(b))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def oblige(self, clause, goal, msg):
        """a precondition that needs the solver"""
        if goal is True:
            return
        if goal is False:
            raise Violation(clause, msg)
        if self.ctx.sat(z3.Not(goal)):
            self.ctx.assume(z3.Not(goal))
            raise Violation(clause, msg)
        self.ctx.stats.solver_disch = getattr(self.ctx.stats, 'solver_disch', 0) + 1

    # ---- globals
    def global_obj(self, ex, name):
        o = self.globals.get(name)
        if o is not None:
            return o
        g = self.m.globals.get(name)
        if g is None:
            raise Undecided('unknown global ' + name)
        size = self.m.sizeof(g['type']) if g['type'][0] != 'named' or g['type'][1] in self.m.types else 8
        o = Obj(name, 'global', size, g['align'], self.nid())
        o.fresh = False
        self.globals[name] = o
        if g['init'] is None:
            o.note = 'extern'
            o.size = 1 << 20
            o.const = True
            return o
        self._init(ex, o, 0, g['type'], g['init'])
        if not g['const'] and not name.startswith('vx'):
            # any earlier history may have changed it
            o.note = 'mutable'
            for off, (sz, v) in list(o.cells.items()):
                if not isinstance(v, (Ptr, FnPtr)) and v is not UNDEF:
                    if g['type'][0] == 'ptr':
                        continue
                    o.cells[off] = (sz, z3.BitVec('glob_%s_%d' % (name, off), 8 * sz))
        o.const = g['const']
        return o

    def _init(self, ex, o, off, ty, init):
        t = self.m.resolve(ty)
        if t[0] == 'struct':
            for i in range(len(t[1])):
                fo, ft = self.m.field_off(t, i)
                self._init(ex, o, off + fo, ft, init[1][i][1] if init[0] == 'agg' else init)
        elif t[0] == 'arr':
            s = self.m.sizeof(t[2])
            for i in range(t[1]):
                if init[0] == 'str':
                    o.cells[off + i] = (1, init[1][i])
                else:
                    self._init(ex, o, off + i * s, t[2], init[1][i][1] if init[0] == 'agg' else init)
        else:
            v = ex.const(t, init)
            if v is not UNDEF:
                o.cells[off] = (self.m.sizeof(t), v)

    # ---- memory access
    def ob(self, tag, n=1):
        if self.record:
            self.chk[tag] = self.chk.get(tag, 0) + n

    def acc(self, p, size, what):
        self.ob('memory')
        if p is UNDEF:
            raise Violation('uninit', '%s through an uninitialised pointer' % what)
        if not isinstance(p, Ptr):
            if p == 0 or isinstance(p, tuple):
                raise Violation('memory', '%s through a null pointer' % what)
            if isinstance(p, FnPtr):
                raise Undecided('%s of function memory' % what)
            raise Undecided('%s through integer pointer %r' % (what, p))
        o = p.o
        if not o.live:
            raise Violation('memory', '%s of %s after its storage was released' % (what, o.name))
        if p.off < 0 or p.off + size > o.size:
            raise Violation('memory', '%s out of bounds of %s (offset %d, size %d of %d)'
                            % (what, o.name, p.off, size, o.size))
        return o

    def opaque_at(self, o, off, size, but=()):
        for io, l in o.inst.items():
            for x in l:
                if x.alive and x.cls not in self.cl.plain and x not in but and io < off + size and off < io + self.cl.size[x.cls]:
                    return x
        return None

    def load(self, ex, p, size, t):
        o = self.acc(p, size, 'read')
        if o.note == 'extern':
            if isinstance(o.alloc, tuple) and o.alloc[0] == 'vt':
                if p.off == VPT - 24 and o.alloc[1] in self.cl.vbase:
                    return self.cl.vbase[o.alloc[1]]
                return FnPtr(self.vslot(o.alloc[1], p.off))
            raise Undecided('read of external object ' + o.name)
        if o.inst:
            x = self.opaque_at(o, p.off, size)
            if x is not None:
                if x.cls in self.cl.poly and size == 8:
                    for (d, b), bo in list(self.cl.bases.items()) + [((x.cls, x.cls), 0)]:
                        if d == x.cls and p.off == x.off + bo:
                            return self.vptr(x.cls)
                raise Violation('opaque', 'raw read inside %r' % x)
        c = o.cells.get(p.off)
        if c is not None and c[0] == size:
            return c[1]
        return self.compose(o, p.off, size)

    def vptr(self, cls):
        k = 'vtable of ' + cls
        if k not in self.globals:
            o = Obj(k, 'global', 1 << 12, 8, self.nid())
            o.note, o.const, o.alloc, o.fresh = 'extern', True, ('vt', cls), False
            self.globals[k] = o
        return Ptr(self.globals[k], VPT)

    def vslot(self, cls, off):
        if off not in (VPT, VPT + 8):
            raise Undecided('virtual call on opaque class')
        n = '_ZN%d%sD%dEv' % (len(cls), cls, 1 if off == VPT else 0)
        self.cl.ext.setdefault(n, ('dtor', cls))
        return n

    def compose(self, o, off, size):
        """read bytes that do not coincide with one stored cell"""
        bs = []
        for i in range(size):
            b = UNDEF
            for co, (cs, v) in o.cells.items():
                if co <= off + i < co + cs:
                    if v is UNDEF:
                        break
                    if isinstance(v, (Ptr, FnPtr)):
                        if cs == 1:
                            raise Undecided('pointer byte')
                        raise Undecided('partial read of a pointer')
                    k = off + i - co
                    if isinstance(v, tuple):
                        raise Undecided('partial read of a float')
                    b = norm(z3.Extract(8 * k + 7, 8 * k, bv(v, 8 * cs))) if is_sym(v) else (v >> (8 * k)) & 255
                    break
            bs.append(b)
        if all(b is UNDEF for b in bs):
            return UNDEF
        if any(b is UNDEF for b in bs):
            return UNDEF
        if any(is_sym(b) for b in bs):
            if size == 1:
                return bs[0]
            return norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r

    def clear(self, o, off, size):
        c = o.cells
        if off in c and c[off][0] == size:
            del c[off]
            return
        for co in list(c):
            cs, v = c[co]
            if co < off + size and off < co + cs:
                del c[co]
                if co >= off and co + cs <= off + size:
                    continue
                if isinstance(v, (Ptr, FnPtr, tuple)) or v is UNDEF:
                    continue
                for i in range(cs):
                    if not (off <= co + i < off + size):
                        c[co + i] = (1, norm(z3.Extract(8 * i + 7, 8 * i, bv(v, 8 * cs)))
                                     if is_sym(v) else (v >> (8 * i)) & 255)

    def wr(self, o, off, size, over=()):
        self.ob('opaque')
        if o.const:
            raise Violation('memory', 'write to read-only object ' + o.name)
        if o.inst:
            x = self.opaque_at(o, off, size, over)
            if x is not None:
                raise Violation('opaque', 'raw write inside %r' % x)
        if self.record and not o.fresh and not self.atomic:
            self.writes.append((o, off, size))

    def store(self, ex, p, size, v):
        o = self.acc(p, size, 'write')
        self.wr(o, p.off, size)
        self.clear(o, p.off, size)
        if v is not UNDEF:
            o.cells[p.off] = (size, v)

    def copy_cells(self, ex, dst, src, n):
        so = self.acc(src, n, 'read')
        do = self.acc(dst, n, 'write')
        if so.note == 'extern':
            raise Undecided('copy of external object')
        objs, over = [], []
        if so.inst:
            objs = self.triv_in(so, src.off, n)
            x = self.opaque_at(so, src.off, n, [x for x, _, _, _ in objs])
            if x is not None:
                raise Violation('opaque', 'bytewise copy of %r' % x)
            objs = [(off - src.off + dst.off, c, v) for _, off, c, v in objs]
        if do.inst and self.cl.triv:
            over = [(x, off, c) for x, off, c, _ in self.triv_in(do, dst.off, n)]
        self.wr(do, dst.off, n, [x for x, _, _ in over])
        if objs or over:
            self.triv_copy(do, dst, src, objs, over)
        moved = []
        for co, (cs, v) in so.cells.items():
            if co < src.off + n and src.off < co + cs:
                if co >= src.off and co + cs <= src.off + n:
                    moved.append((co - src.off, cs, v))
                else:
                    for i in range(cs):
                        if src.off <= co + i < src.off + n:
                            moved.append((co + i - src.off, 1, self.compose(so, co + i, 1)))
        self.clear_range(do, dst.off, n)
        for off, cs, v in moved:
            if v is not UNDEF:
                do.cells[dst.off + off] = (cs, v)

    def triv_in(self, o, off, n):
        """trivially copyable objects, or base subobjects of them, that lie in [off, off+n): (object, offset, class, value)"""
        out = []
        for io, l in o.inst.items():
            for x in l:
                if x.alive and x.cls in self.cl.triv and io < off + n and off < io + self.cl.size[x.cls]:
                    if off <= io and io + self.cl.size[x.cls] <= off + n:
                        out.append((x, io, x.cls, x.val))
                        continue
                    for (d, b), bo in self.cl.bases.items():
                        if d == x.cls and io + bo == off and self.cl.size[b] == n:
                            out.append((x, off, b, ufapp('sub_%s_%s' % (d, b), [x.val])))
        return out

    def triv_copy(self, do, dst, src, objs, over):
        """a bytewise copy of trivially copyable objects copies or assigns them"""
        for x, off, c in over:
            new = [v for o2, c2, v in objs if (o2, c2) == (off, c)]
            if not new:
                self.retire(x)
            elif c == x.cls:
                x.val = new[0]
                self.events.append(dict(k='assign', cls=c, kind='*', inst=x, args=[Ptr(src.o, src.off + off - dst.off)], threw=False))
                objs = [t for t in objs if t[:2] != (off, c)]
            else:
                x.val = self.fresh('partial', V)
                objs = [t for t in objs if t[:2] != (off, c)]
        for off, c, v in objs:
            p = Ptr(do, off)
            x = self.begin(None, p, c, v)
            self.check_auth('c', p, c)
            self.events.append(dict(k='ctor', cls=c, kind='*', inst=x, this=p, args=[Ptr(src.o, src.off + off - dst.off)], threw=False))
            do.inst[off] = [y for y in do.inst.get(off, ()) if y.alive] + [x]

    def retire(self, x):
        """the storage of a trivially destructible object is reused or released"""
        if self.hooks and x.obj.kind == 'heap':
            raise Violation('heap', '%s in allocator storage is discarded without the allocator\'s destroy()' % x.cls)
        x.alive = False

    def clear_range(self, o, off, n):
        if n:
            for co in [c for c, (s, _) in o.cells.items() if off <= c and c + s <= off + n]:
                del o.cells[co]
            self.clear(o, off, n)

    def memcpy(self, ex, dst, src, n):
        if n == 0:
            return
        self.copy_cells(ex, dst, src, n)

    def memset(self, ex, dst, v, n):
        if n == 0:
            return
        o = self.acc(dst, n, 'write')
        self.wr(o, dst.off, n)
        self.clear_range(o, dst.off, n)
        if v is UNDEF:
            return
        i = 0
        while i < n:
            k = 8 if (dst.off + i) % 8 == 0 and n - i >= 8 else 1
            o.cells[dst.off + i] = (k, int.from_bytes(bytes([v & 255] * k), 'little'))
            i += k

    def same_address(self, a, b):
        return False

    # ---- exceptions
    def exc_obj(self, exc):
        if exc.obj is None:
            exc.obj = self.new_obj('exception', 'exc', 1 << 16, 16)
            self.exc_objs[exc.obj.uid] = exc
        return exc.obj

    def exc_of(self, p):
        if not isinstance(p, Ptr) or p.o.uid not in self.exc_objs:
            raise Undecided('resume of unknown exception')
        return self.exc_objs[p.o.uid]

    def ti_derives(self, d, b):
        return d == b or b in DERIV.get(d, ())

    def may_throw(self, what, nounwind):
        if nounwind or self.nothrow:
            return False
        if self.ctx.choose(2, what + ' throws'):
            return True
        return False

    def throw(self, what):
        e = Exc(self.nid(), what)
        self.threw.append(e)
        raise Unwind(e)

    # ---- objects
    def live_at(self, p, cls, what):
        """the live object of static type cls at p (possibly a base subobject)"""
        self.ob('lifetime')
        if p is UNDEF:
            raise Violation('uninit', what + ': uninitialised pointer')
        if not isinstance(p, Ptr):
            raise Violation('memory', what + ': null or invalid pointer')
        if not p.o.live:
            raise Violation('memory', what + ': object in %s used after its storage was released' % p.o.name)
        for x in p.o.inst.get(p.off, ()):
            if x.alive and x.cls == cls:
                return x, x.val
        for off, l in p.o.inst.items():
            for x in l:
                if x.alive and self.cl.bases.get((x.cls, cls), None) == p.off - off:
                    return x, ufapp('sub_%s_%s' % (x.cls, cls), [x.val])
        raise Violation('lifetime', '%s: no live %s at %r' % (what, cls, p))

    def begin(self, ex, p, cls, val):
        if p is UNDEF:
            raise Violation('uninit', 'construction through an uninitialised pointer')
        if not isinstance(p, Ptr):
            raise Violation('memory', 'construction of %s through a null pointer' % cls)
        o = self.acc(p, self.cl.size[cls], 'construction of ' + cls)
        self.wr_raw(o, p.off, self.cl.size[cls], cls)
        al = self.cl.align[cls]
        if o.align % al or p.off % al:
            raise Violation('memory', 'construction of %s at a misaligned address (%s+%d, alignment %d)'
                            % (cls, o.name, p.off, al))
        x = Inst(cls, o, p.off, val, self.nid())
        return x

    def wr_raw(self, o, off, size, cls):
        if o.const:
            raise Violation('memory', 'construction in read-only memory')
        self.ob('lifetime')
        old = [x for x, _, _, _ in self.triv_in(o, off, size)] if self.cl.triv else []
        x = self.opaque_at(o, off, size, old)
        if x is not None:
            raise Violation('lifetime', 'construction of %s over the live object %r' % (cls, x))
        for y in old:
            self.retire(y)
        if self.record and not o.fresh:
            self.writes.append((o, off, size))

    def check_auth(self, kind, p, cls):
        if self.hooks and p.o.kind == 'heap':
            self.ob('heap')
            a = self.auth.pop((kind, p.o.uid, p.off), None)
            verb = 'constructed' if kind == 'c' else 'destroyed'
            if a is None or a[1] != self.cl.size[cls]:
                raise Violation('heap', '%s in allocator storage is %s without the allocator\'s %s()'
                                % (cls, verb, 'construct' if kind == 'c' else 'destroy'))
            self.oblige('heap', self.same_alloc(a[0], p.o.alloc),
                        '%s %s through an allocator that is not equal to the one that allocated the storage' % (cls, verb))

    def argval(self, p, ty):
        """value denoted by an argument of type ty"""
        c = re.sub(r'( const)?(&&?|\*)?$', '', ty)
        if c in self.cl.size and c not in self.cl.plain:
            return self.live_at(p, c, 'argument of type ' + ty)[1]
        if ty.startswith('std::initializer_list<'):
            return None
        return None

    def do_ctor(self, ex, name, e, args, nu):
        _, cls, kind, ps = e
        this = args[0]
        av, pure = [], []
        i = 1
        for ty in ps:
            if ty.startswith('std::initializer_list<'):
                av.append(('il', args[i], args[i + 1]))
                if args[i] is UNDEF or args[i + 1] is UNDEF:
                    raise Violation('uninit', 'uninitialised initializer_list')
                i += 2
            else:
                v = self.argval(args[i], ty)
                av.append(args[i])
                if v is not None:
                    pure.append(v)
                i += 1
        x = self.begin(ex, this, cls, None)
        self.check_auth('c', this, cls)
        ev = dict(k='ctor', cls=cls, kind=kind, this=this, args=av, threw=False, inst=x)
        self.events.append(ev)
        src = None
        if kind in ('copy', 'move'):
            src, sv = self.live_at(av[0], cls, '%s-construction of %s' % (kind, cls))
        if self.may_throw(dem(name), nu):
            ev['threw'] = True
            self.consume(ps, av, True)
            self.logcall(name, args, 'throw')
            self.throw(dem(name))
        self.consume(ps, av, False)
        self.clear_range(x.obj, x.off, self.cl.size[cls])
        if cls in self.cl.plain:
            for f, n in PLAINF[cls]:
                x.obj.cells[x.off + f] = (n, z3.BitVec('plain_%d_%d' % (self.nid(), f), 8 * n))
            self.logcall(name, args, 'ret', None)
            return None
        if kind in ('copy', 'move'):
            x.val = sv
        else:
            x.val = ufapp('%s::%s' % (cls, kind), pure)
        x.obj.inst.setdefault(x.off, [])
        x.obj.inst[x.off] = [y for y in x.obj.inst[x.off] if y.alive] + [x]
        self.logcall(name, args, 'ret', None)
        return None

    def consume(self, ps, av, threw):
        """rvalue arguments of opaque type may have been moved from"""
        for ty, p in zip(ps, av):
            if ty.endswith('&&') and not ty.endswith(' const&&') or (ty.endswith('&') and ' const&' not in ty):
                c = re.sub(r'&&?$', '', ty)
                if c in self.cl.size and c not in self.cl.plain:
                    s, _ = self.live_at(p, c, 'argument')
                    s.val = self.fresh('moved', V)

    def do_dtor(self, ex, name, e, args):
        cls = e[1]
        p = args[0]
        x, _ = self.live_at(p, cls, 'destruction of ' + cls)
        virt = 'D0Ev' in name
        self.ob('dyntype')
        if x.cls != cls:
            raise Violation('dyntype', 'object of dynamic type %s destroyed as %s' % (x.cls, cls))
        self.check_auth('d', p, cls)
        if self.record and not x.obj.fresh:
            self.writes.append((x.obj, x.off, self.cl.size[cls]))
        x.alive = False
        self.events.append(dict(k='dtor', cls=cls, inst=x, this=p))
        self.logcall(name, args, 'ret', None)
        t = self.tied.pop(x.uid, None)
        if t is not None:
            # x contains the handle t: the destructor of x destroys it
            self.log.append((name, [Ptr(t, 0)], 'kill', None))
            ex.call('ob_dtor', [Ptr(t, 0)])
            t.live = False
        if virt:
            self.external(ex, '_ZdlPv', [p], True)
        return None

    def do_assign(self, ex, name, e, args, nu):
        _, cls, kind, ps = e
        x, _ = self.live_at(args[0], cls, 'assignment to ' + cls)
        v = self.argval(args[1], ps[0])
        ev = dict(k='assign', cls=cls, kind=kind, inst=x, args=[args[1]], threw=False)
        self.events.append(ev)
        if self.record and not x.obj.fresh:
            self.writes.append((x.obj, x.off, self.cl.size[cls]))
        selfa = kind in ('copy', 'move') and self.live_at(args[1], cls, 'source')[0] is x
        if self.may_throw(dem(name), nu):
            ev['threw'] = True
            x.val = self.fresh('partial', V)
            self.consume(ps, [args[1]], True)
            self.logcall(name, args, 'throw')
            self.throw(dem(name))
        if not selfa:
            self.consume(ps, [args[1]], False)
        if kind in ('copy', 'move'):
            x.val = v
        else:
            x.val = ufapp('%s=%s' % (cls, kind), [v] if v is not None else [])
        self.logcall(name, args, 'ret', args[0])
        return args[0]

    # comparison of opaque values: irreflexive partial, NaN-like
    def relaxioms(self, a, b):
        k = (str(a), str(b))
        if k in self.eqpairs:
            return
        self.eqpairs.add(k)
        for c in (EQ(a, b) == EQ(b, a), z3.Not(z3.And(LT(a, b), EQ(a, b))), z3.Not(z3.And(LT(b, a), EQ(a, b))),
                  z3.Not(z3.And(LT(a, b), LT(b, a)))):
            self.ctx.assume(z3.simplify(c) if not z3.is_true(z3.simplify(c)) else True)

    def rel(self, op, a, b):
        self.relaxioms(a, b)
        return {'==': lambda: EQ(a, b), '!=': lambda: z3.Not(EQ(a, b)), '<': lambda: LT(a, b),
                '>': lambda: LT(b, a), '<=': lambda: z3.Or(LT(a, b), EQ(a, b)),
                '>=': lambda: z3.Or(LT(b, a), EQ(a, b))}[op]()

    def cmpval(self, p, c):
        if c in self.cl.size and c not in self.cl.plain:
            return self.live_at(p, c, 'comparison operand')[1]
        raise Undecided('comparison with ' + c)

    def do_cmp(self, ex, name, e, args, nu):
        _, op, c1, c2 = e
        a, b = self.cmpval(args[0], c1), self.cmpval(args[1], c2)
        self.events.append(dict(k='cmp', op=op, args=args, vals=(a, b)))
        if self.may_throw(dem(name), nu):
            self.logcall(name, args, 'throw')
            self.throw(dem(name))
        if op == '<=>':
            self.relaxioms(a, b)
            un = self.cfg.get('unordered', 2)
            i8 = lambda k: z3.BitVecVal(k, 8)
            r = norm(z3.If(LT(a, b), i8(-1), z3.If(EQ(a, b), i8(0), z3.If(LT(b, a), i8(1), i8(un)))))
        else:
            r = norm(self.rel(op, a, b))
        self.logcall(name, args, 'ret', r)
        return r

    def logcall(self, name, args, how, ret=None):
        self.log.append((name, list(args), how, ret))

    # ---- allocation
    def allocate(self, ex, idv, size, align, name, args, nounwind):
        if is_sym(size) or is_sym(align):
            raise Undecided('symbolic allocation size')
        ev = dict(k='alloc', id=idv, size=size, threw=False, blk=None)
        self.events.append(ev)
        if idv is UNDEF:
            raise Violation('uninit', 'allocation with an uninitialised allocator')
        if self.may_throw('allocate', nounwind):
            ev['threw'] = True
            self.logcall(name, args, 'throw')
            self.throw('allocate')
        o = self.new_obj('block%d' % len(self.blocks), 'heap', size, max(align, 1))
        o.alloc = idv
        o.fresh = True
        o.note = ('align', align)
        self.blocks.append(o)
        ev['blk'] = o
        self.logcall(name, args, 'ret', Ptr(o, 0))
        return Ptr(o, 0)

    def deallocate(self, ex, idv, p, size, align, name, args, fam='vx'):
        self.ob('dealloc', 6)
        self.ob('lifetime')
        if idv is UNDEF or p is UNDEF:
            raise Violation('uninit', 'deallocation with an uninitialised argument')
        if not isinstance(p, Ptr):
            raise Violation('dealloc', 'deallocation of a null or invalid pointer')
        o = p.o
        if o.kind != 'heap':
            raise Violation('dealloc', 'deallocation of %s, which no allocator returned' % o.name)
        if not o.live:
            raise Violation('dealloc', 'double deallocation of ' + o.name)
        if p.off != 0:
            raise Violation('dealloc', 'deallocation of %s at offset %d' % (o.name, p.off))
        if size is not None and size != o.size:
            raise Violation('dealloc', '%s of %d bytes deallocated as %s bytes' % (o.name, o.size, size))
        if align is not None and o.note[1] != align:
            raise Violation('dealloc', '%s allocated with alignment %d, deallocated with %d' % (o.name, o.note[1], align))
        fam0 = 'new' if o.alloc is STDNEW else 'vx'
        if fam0 != fam:
            raise Violation('dealloc', 'storage obtained from %s is released through %s'
                            % ({'new': 'operator new', 'vx': 'the allocator'}[fam0],
                               {'new': 'operator delete', 'vx': 'the allocator'}[fam]))
        if fam == 'vx':
            self.oblige('heap', self.same_alloc(idv, o.alloc),
                        '%s is deallocated by an allocator that is not equal to the one that allocated it' % o.name)
        old = [x for x, _, _, _ in self.triv_in(o, 0, o.size)] if self.cl.triv else []
        x = self.opaque_at(o, 0, o.size, old)
        for y in old:
            self.retire(y)
        if x is not None:
            raise Violation('lifetime', 'storage released while %r is still alive' % x)
        if self.record and not o.fresh:
            self.writes.append((o, 0, o.size))
        o.live = False
        self.events.append(dict(k='dealloc', id=idv, blk=o))
        self.logcall(name, args, 'ret', None)

    # ---- calls that are not inlined
    def intercept(self, ex, name, args, nounwind):
        h = self.modular.get(name)
        if h is not None:
            return h(ex, name, args, nounwind)
        return None

    def external(self, ex, name, args, nounwind):
        nounwind = nounwind or 'nounwind' in self.m.decls.get(name, ())
        self.pending = (name, list(args))
        e = self.cl.ext.get(name)
        if e is None and name.endswith('D0Ev'):
            e = self.cl.ext.get(name.replace('D0Ev', 'D1Ev'))
        if e is not None:
            k = e[0]
            if k == 'ctor':
                return self.do_ctor(ex, name, e, args, nounwind)
            if k == 'dtor':
                return self.do_dtor(ex, name, e, args)
            if k == 'assign':
                return self.do_assign(ex, name, e, args, nounwind)
            if k == 'cmp':
                return self.do_cmp(ex, name, e, args, nounwind)
            if k == 'hash':
                x, v = self.live_at(args[1], e[1], 'hash operand')
                self.events.append(dict(k='hash', inst=x))
                if self.may_throw(dem(name), nounwind):
                    self.logcall(name, args, 'throw')
                    self.throw(dem(name))
                self.logcall(name, args, 'ret', HASH(v))
                return HASH(v)
            if k == 'amp':
                raise Violation('denote', 'address of a %s taken with its overloaded operator&, '
                                'whose result is unspecified' % e[1])
            raise Violation('memory', 'unexpected use of member %s of %s' % (e[2], e[1]))
        if name.startswith('vx_'):
            return self.vx(ex, name, args, nounwind)
        f = RT.get(name)
        if f:
            return f(self, ex, name, args, nounwind)
        d = dem(name)
        if d.startswith('std::__throw_') or d.startswith('std::rethrow_exception'):
            ee = Exc(self.nid(), 'library')
            ee.ti = '?' + d
            raise Unwind(ee)
        if name in ('exit', '_exit', 'quick_exit', '_ZSt4exiti'):
            raise Violation('abort', 'process exit')
        raise Undecided('call of external function ' + d)

    def vx(self, ex, name, args, nu):
        if name == 'vx_allocate':
            return self.allocate(ex, args[0], args[1], args[2], name, args, nu)
        if name == 'vx_deallocate':
            return self.deallocate(ex, args[0], args[1], args[2], args[3], name, args)
        if name == 'vx_alloc_eq':
            if args[0] is UNDEF or args[1] is UNDEF:
                raise Violation('uninit', 'comparison of an uninitialised allocator')
            r = self.same_alloc(args[0], args[1])
            r = int(r) if isinstance(r, bool) else r
            self.logcall(name, args, 'ret', r)
            return r
        if name == 'vx_socc':
            if args[0] is UNDEF:
                raise Violation('uninit', 'use of an uninitialised allocator')
            r = SOCC(bv(args[0], 64))
            self.logcall(name, args, 'ret', r)
            return r
        if name == 'vx_default_id':
            r = z3.BitVec('default_id', 64)
            self.logcall(name, args, 'ret', r)
            return r
        if name in ('vx_construct', 'vx_destroy'):
            p = args[1]
            if not isinstance(p, Ptr):
                raise Violation('memory', 'allocator %s() called with an invalid pointer' % name[3:])
            if args[0] is UNDEF:
                raise Violation('uninit', 'use of an uninitialised allocator')
            self.auth[('c' if name == 'vx_construct' else 'd', p.o.uid, p.off)] = (args[0], args[2])
            for x in (p.o.inst.get(p.off, ()) if name == 'vx_destroy' else ()):
                if x.alive and x.cls in self.cl.triv:
                    # the destructor call that follows does nothing
                    self.check_auth('d', p, x.cls)
                    if self.record and not p.o.fresh:
                        self.writes.append((p.o, p.off, args[2]))
                    x.alive = False
            self.events.append(dict(k='hook', c=name == 'vx_construct', id=args[0], p=p, size=args[2]))
            self.logcall(name, args, 'ret', None)
            return None
        h = self.modular.get(name)
        if h:
            return h(ex, name, args, nu)[0]
        raise Undecided('call of ' + name)


STDNEW = ('operator new',)


def _new(w, ex, name, a, nu):
    al = a[1] if 'align_val' in name else 16
    if 'nothrow' in name:
        raise Undecided('nothrow new')
    p = w.allocate(ex, STDNEW, a[0], al, name, a, nu)
    p.o.note = ('align', a[1] if 'align_val' in name else 0)
    return p


def _delete(w, ex, name, a, nu):
    if a[0] == 0 and not isinstance(a[0], Ptr):
        return None
    size, align = None, 0
    rest = a[1:]
    if name.startswith('_ZdlPvm'):
        size, rest = rest[0], rest[1:]
    if 'align_val' in name:
        align = rest[0]
    w.deallocate(ex, STDNEW, a[0], size, align, name, a, 'new')


def _begin_catch(w, ex, name, a, nu):
    e = w.exc_of(a[0])
    ex.caught.append(e)
    return a[0]


def _end_catch(w, ex, name, a, nu):
    if ex.caught:
        ex.caught.pop()


def _rethrow(w, ex, name, a, nu):
    if not ex.caught:
        raise Violation('terminate', 'rethrow without a current exception')
    raise Unwind(ex.caught[-1])


def _alloc_exc(w, ex, name, a, nu):
    e = Exc(w.nid(), 'library')
    o = w.exc_obj(e)
    return Ptr(o, 0)


def _throw(w, ex, name, a, nu):
    e = w.exc_of(a[0])
    e.ti = a[1].o.name if isinstance(a[1], Ptr) else repr(a[1])
    raise Unwind(e)


def _term(w, ex, name, a, nu):
    raise Violation('terminate', '%s called' % dem(name))


def _assert(w, ex, name, a, nu):
    raise Violation('abort', 'assertion failed')


def _guard_acq(w, ex, name, a, nu):
    if w.ctx.choose(2, 'static initialised'):
        w.atomic = True          # the runtime serialises the initialisation
        return 1
    return 0


def _guard_rel(w, ex, name, a, nu):
    w.atomic = False


RT = {
    '_Znwm': _new, '_ZnwmSt11align_val_t': _new,
    '_ZdlPv': _delete, '_ZdlPvm': _delete, '_ZdlPvSt11align_val_t': _delete, '_ZdlPvmSt11align_val_t': _delete,
    '__cxa_begin_catch': _begin_catch, '__cxa_end_catch': _end_catch, '__cxa_rethrow': _rethrow,
    '__cxa_get_exception_ptr': lambda w, ex, n, a, nu: a[0],
    '__cxa_allocate_exception': _alloc_exc, '__cxa_throw': _throw,
    '__cxa_free_exception': lambda w, ex, n, a, nu: None,
    '_ZSt9terminatev': _term, 'abort': _term, '__cxa_pure_virtual': _term, '__cxa_call_unexpected': _term,
    '_ZSt10unexpectedv': _term, '__cxa_bad_cast': _term,
    '__assert_fail': _assert, '_ZSt21__glibcxx_assert_failPKciS0_S0_': _assert,
    '__cxa_guard_acquire': _guard_acq, '__cxa_guard_release': _guard_rel,
    '__cxa_guard_abort': _guard_rel,
    '__cxa_atexit': lambda w, ex, n, a, nu: 0,
    '_ZNSt9exceptionD2Ev': lambda w, ex, n, a, nu: None,
    '_ZNSt9exceptionD1Ev': lambda w, ex, n, a, nu: None,
    '_ZSt18uncaught_exceptionv': lambda w, ex, n, a, nu: 0,
    '_ZSt19uncaught_exceptionsv': lambda w, ex, n, a, nu: 0,
}

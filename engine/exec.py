"""Symbolic executor / verification-condition generator for LLVM IR.

One call of `Exec.call` runs a function of the module on a `World` along ONE
path; the path is selected by the decisions recorded in a `Ctx`, and
`explore()` enumerates all of them by re-execution.  The code under
verification contains no loop, so the enumeration is complete, not bounded; a
loop that is introduced and is not executed a fixed number of times makes the
function undecidable here (Undecided), never "verified".
"""
import time
import z3
from . import ir

M64 = (1 << 64) - 1
_simp = z3.simplify


# ---- outcomes ---------------------------------------------------------------
class Violation(Exception):
    """a safety obligation that fails on this path"""

    def __init__(self, clause, msg):
        super().__init__(clause + ': ' + msg)
        self.clause, self.msg = clause, msg


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class Unwind(Exception):
    def __init__(self, exc):
        super().__init__('unwind')
        self.exc = exc


class Exc:
    """an in-flight C++ exception. ti None: thrown by an external function, its
    type is unknown and may or may not match a catch clause"""
    __slots__ = ('uid', 'ti', 'origin', 'match', 'obj')

    def __init__(self, uid, origin, ti=None):
        self.uid, self.origin, self.ti = uid, origin, ti
        self.match = {}
        self.obj = None


# ---- values -----------------------------------------------------------------
class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.o is self.o and x.off == self.off

    def __ne__(self, x):
        return not self == x

    def __hash__(self):
        return hash((id(self.o), self.off))

    def __repr__(self):
        return '%s+%d' % (self.o.name, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, x):
        return isinstance(x, FnPtr) and x.name == self.name

    def __ne__(self, x):
        return not self == x

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '&' + self.name


class IntPtr:
    """a non-null integer used as a pointer (e.g. an end sentinel)"""


NULL = 0   # a null pointer is the integer 0


class Obj:
    """a region of memory"""
    __slots__ = ('name', 'kind', 'size', 'align', 'live', 'const', 'cells', 'inst', 'alloc', 'uid',
                 'fresh', 'bytes_known', 'note')

    def __init__(self, name, kind, size, align, uid):
        self.name, self.kind, self.size, self.align, self.uid = name, kind, size, align, uid
        self.live = True
        self.const = False
        self.cells = {}      # off -> (size, value)
        self.inst = {}       # off -> [Inst]
        self.alloc = None
        self.fresh = True
        self.note = None


class Inst:
    """an object of an opaque class"""
    __slots__ = ('cls', 'obj', 'off', 'val', 'uid', 'alive')

    def __init__(self, cls, obj, off, val, uid):
        self.cls, self.obj, self.off, self.val, self.uid = cls, obj, off, val, uid
        self.alive = True

    def __repr__(self):
        return '%s#%d@%s+%d' % (self.cls, self.uid, self.obj.name, self.off)


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, n):
    if is_sym(v):
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        return v
    return z3.BitVecVal(v, n)


def norm(v):
    """simplify; concrete results become python ints / bools-as-ints"""
    if not is_sym(v):
        return v
    v = _simp(v)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return v


def tobool(v):
    """i1 value -> z3 Bool or python bool"""
    if not is_sym(v):
        return bool(v)
    if z3.is_bool(v):
        return v
    r = _simp(v == 1)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


# ---- decisions --------------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = 0
        self.solver_calls = 0
        self.solver_time = 0.0
        self.steps = 0
        self.funcs = set()


class Ctx:
    """path condition and decisions of one path"""

    def __init__(self, prefix, stats):
        self.prefix = prefix
        self.trace = []        # (choice, n, label)
        self.stats = stats
        self.pc = []
        self.solver = None
        self.pinned = None

    def choose(self, n, label):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n, label))
        return c

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 20000)
            for p in self.pc:
                self.solver.add(p)
        return self.solver

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)
        if self.solver is not None:
            self.solver.add(c)

    def sat(self, *cs):
        s = self._solver()
        t = time.time()
        r = s.check(*cs)
        self.stats.solver_calls += 1
        self.stats.solver_time += time.time() - t
        if r == z3.unknown:
            raise Undecided('solver: unknown')
        return r == z3.sat

    def branch(self, c, label):
        """decide a boolean; returns python bool"""
        c = tobool(c)
        if c is True or c is False:
            return c
        i = len(self.trace)
        if i < len(self.prefix):
            r = self.prefix[i] == 0
            self.trace.append((self.prefix[i], 2, label))
            self.assume(c if r else z3.Not(c))
            return r
        t = self.sat(c)
        f = self.sat(z3.Not(c))
        if t and f:
            self.trace.append((0, 2, label))
            self.assume(c)
            return True
        if not t and not f:
            raise Infeasible()
        return t


def explore(run, stats, limit=20000, deadline=None):
    """enumerate all paths of run(ctx); yields run's result for each"""
    stack = [[]]
    n = 0
    while stack:
        pre = stack.pop()
        ctx = Ctx(pre, stats)
        try:
            r = run(ctx)
        except Infeasible:
            r = None
        ch = [t[0] for t in ctx.trace]
        for i in range(len(pre), len(ctx.trace)):
            c, k, _ = ctx.trace[i]
            for alt in range(c + 1, k):
                stack.append(ch[:i] + [alt])
        n += 1
        stats.paths += 1
        if n > limit:
            raise Undecided('more than %d paths' % limit)
        if r is not None:
            yield r


# ---- execution --------------------------------------------------------------
class Frame:
    __slots__ = ('f', 'loc', 'allocas', 'block', 'prev')


class Exec:
    STEP_LIMIT = 400000
    DEPTH = 250

    def __init__(self, mod, world, ctx):
        self.m, self.w, self.ctx = mod, world, ctx
        self.depth = 0
        self.steps = 0
        self.caught = []
        self.tids = {}
        self.frames = []

    # -- constants / operands
    def const(self, ty, op):
        k = op[0]
        if k == 'int':
            rt = self.m.resolve(ty)
            return op[1] & ((1 << rt[1]) - 1) if rt[0] == 'i' else op[1]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.globptr(op[1])
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.const(t, o) for t, o in op[1]]
        if k == 'gep':
            return self.gep(op[1], [(t, self.const(t, o)) for t, o in op[2]])
        if k == 'cast':
            return self.cast(op[1], op[2], self.const(op[2], op[3]), op[4])
        if k == 'cbin':
            (t, a), (_, b) = op[2]
            return self.binop(op[1], t, self.const(t, a), self.const(t, b))
        if k == 'cicmp':
            (t, a), (_, b) = op[2]
            return self.icmp(op[1], t, self.const(t, a), self.const(t, b))
        if k == 'flt':
            return ('flt', op[1])
        if k == 'str':
            return list(op[1])
        raise Undecided('constant %r' % (op,))

    def undef(self, ty):
        t = self.m.resolve(ty)
        if t[0] == 'struct':
            return [self.undef(x) for x in t[1]]
        if t[0] == 'arr':
            return [self.undef(t[2]) for _ in range(t[1])]
        return UNDEF

    def zero(self, ty):
        t = self.m.resolve(ty)
        if t[0] == 'struct':
            return [self.zero(x) for x in t[1]]
        if t[0] == 'arr':
            return [self.zero(t[2]) for _ in range(t[1])]
        return 0

    def globptr(self, name):
        while name in self.m.aliases and self.m.aliases[name]:
            name = self.m.aliases[name]
        if name in self.m.funcs or name in self.m.decls:
            return FnPtr(name)
        return Ptr(self.w.global_obj(self, name), 0)

    def val(self, fr, ty, op):
        if op[0] == 'loc':
            try:
                return fr.loc[op[1]]
            except KeyError:
                raise Undecided('undefined local %s' % op[1])
        return self.const(ty, op)

    # -- arithmetic
    def binop(self, op, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        t = self.m.resolve(ty)
        if t[0] != 'i':
            raise Undecided('%s on %r' % (op, t))
        n = t[1]
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.o is b.o:
                return (a.off - b.off) & ((1 << n) - 1)
            if isinstance(a, Ptr) and not isinstance(b, Ptr) and not is_sym(b):
                s = b - (1 << n) if b >> (n - 1) else b
                if op == 'add':
                    return Ptr(a.o, a.off + s)
                if op == 'sub':
                    return Ptr(a.o, a.off - s)
                if op == 'and' and b < a.o.align and a.o.align % (b + 1) == 0:
                    return a.off & b
            if isinstance(b, Ptr) and op == 'add' and not is_sym(a) and not isinstance(a, Ptr):
                return self.binop(op, ty, b, a)
            raise Undecided('pointer arithmetic %s' % op)
        mask = (1 << n) - 1
        if not is_sym(a) and not is_sym(b):
            sa = a - (1 << n) if a >> (n - 1) else a
            sb = b - (1 << n) if b >> (n - 1) else b
            if op == 'add':
                return (a + b) & mask
            if op == 'sub':
                return (a - b) & mask
            if op == 'mul':
                return (a * b) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mask if b < n else UNDEF
            if op == 'lshr':
                return a >> b if b < n else UNDEF
            if op == 'ashr':
                return (sa >> b) & mask if b < n else UNDEF
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    raise Violation('ub', 'division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (q if op == 'sdiv' else sa - q * sb) & mask
            raise Undecided('binop ' + op)
        if n == 1:
            x, y = tobool(a), tobool(b)
            x = z3.BoolVal(x) if isinstance(x, bool) else x
            y = z3.BoolVal(y) if isinstance(y, bool) else y
            r = {'and': lambda: z3.And(x, y), 'or': lambda: z3.Or(x, y),
                 'xor': lambda: z3.Xor(x, y), 'add': lambda: z3.Xor(x, y)}.get(op)
            if r is None:
                raise Undecided('i1 ' + op)
            return norm(r())
        x, y = bv(a, n), bv(b, n)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
             'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}.get(op)
        if r is None:
            raise Undecided('binop ' + op)
        return norm(r())

    def icmp(self, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        pa, pb = isinstance(a, (Ptr, FnPtr)), isinstance(b, (Ptr, FnPtr))
        if pa or pb:
            if pred in ('eq', 'ne'):
                if pa and pb:
                    eq = (a == b)
                    if not eq and isinstance(a, Ptr) and isinstance(b, Ptr):
                        eq = self.w.same_address(a, b)
                else:
                    o = b if pa else a
                    if is_sym(o):
                        raise Undecided('pointer compared with symbolic integer')
                    eq = False
                return int(eq == (pred == 'eq'))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                return self.icmp(pred, ('i', 64), a.off & M64, b.off & M64)
            if pred in ('ugt', 'ult', 'uge', 'ule') and (a == 0 or b == 0):
                return int({'ugt': pa, 'uge': pa, 'ult': pb, 'ule': pb}[pred])
            # unrelated objects: any total order is possible
            return self.ctx.choose(2, 'ptr-order')
        t = self.m.resolve(ty)
        n = 64 if t[0] == 'ptr' else t[1]
        if not is_sym(a) and not is_sym(b):
            sa = a - (1 << n) if a >> (n - 1) else a
            sb = b - (1 << n) if b >> (n - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b,
                        'ule': a <= b, 'sgt': sa > sb, 'sge': sa >= sb, 'slt': sa < sb,
                        'sle': sa <= sb}[pred])
        if n == 1:
            x, y = tobool(a), tobool(b)
            x = z3.BoolVal(x) if isinstance(x, bool) else x
            y = z3.BoolVal(y) if isinstance(y, bool) else y
            if pred == 'eq':
                return norm(x == y)
            if pred == 'ne':
                return norm(x != y)
            raise Undecided('i1 icmp ' + pred)
        x, y = bv(a, n), bv(b, n)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y),
             'uge': lambda: z3.UGE(x, y), 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return norm(r)

    def cast(self, op, a, v, b):
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'bitcast' and 'f' in (self.m.resolve(a)[0], self.m.resolve(b)[0]):
                raise Undecided('float bitcast')
            return v
        ta, tb = self.m.resolve(a), self.m.resolve(b)
        if ta[0] != 'i' or tb[0] != 'i':
            raise Undecided('cast ' + op)
        na, nb = ta[1], tb[1]
        if isinstance(v, (Ptr, FnPtr)):
            raise Undecided('cast of pointer bits')
        if op == 'trunc':
            if is_sym(v):
                if z3.is_bool(v):
                    return v
                if nb == 1:
                    return norm(z3.Extract(0, 0, v) == 1)
                return norm(z3.Extract(nb - 1, 0, v))
            return v & ((1 << nb) - 1)
        if op == 'zext':
            if is_sym(v):
                if na == 1:
                    return norm(bv(tobool(v), nb))
                return norm(z3.ZeroExt(nb - na, v))
            return v
        if op == 'sext':
            if is_sym(v):
                if na == 1:
                    return norm(z3.If(tobool(v), z3.BitVecVal(-1, nb), z3.BitVecVal(0, nb)))
                return norm(z3.SignExt(nb - na, v))
            return (v - (1 << na)) & ((1 << nb) - 1) if v >> (na - 1) else v
        raise Undecided('cast ' + op)

    def gep(self, sty, ops):
        p = ops[0][1]
        if p is UNDEF:
            return UNDEF
        off = 0
        t = sty
        for i, (ity, iv) in enumerate(ops[1:]):
            if is_sym(iv):
                raise Undecided('symbolic index')
            n = self.m.resolve(ity)[1]
            if iv is UNDEF:
                return UNDEF
            s = iv - (1 << n) if iv >> (n - 1) else iv
            if i == 0:
                off += s * self.m.sizeof(t) if s else 0
            else:
                r = self.m.resolve(t)
                if r[0] == 'struct':
                    o, t = self.m.field_off(r, iv)
                    off += o
                elif r[0] == 'arr':
                    t = r[2]
                    off += s * self.m.sizeof(t)
                else:
                    raise Undecided('gep into %r' % (r,))
        if isinstance(p, Ptr):
            return Ptr(p.o, p.off + off) if off else p
        if off == 0:
            return p
        if p == 0:
            # offsetting a null pointer: clang emits this for member access
            # through null; any use of it is reported when dereferenced
            return ('nulloff', off)
        raise Undecided('gep on %r' % (p,))

    # -- memory
    def load(self, ty, p):
        t = self.m.resolve(ty)
        if t[0] in ('struct', 'arr'):
            if t[0] == 'struct':
                out = []
                for i in range(len(t[1])):
                    o, ft = self.m.field_off(t, i)
                    out.append(self.load(ft, self.padd(p, o)))
                return out
            s = self.m.sizeof(t[2])
            return [self.load(t[2], self.padd(p, i * s)) for i in range(t[1])]
        v = self.w.load(self, p, self.m.sizeof(t), t)
        if t[0] == 'i' and t[1] < 8 * self.m.sizeof(t) and v is not UNDEF and not isinstance(v, Ptr):
            v = self.cast('trunc', ('i', 8 * self.m.sizeof(t)), v, t)
        return v

    def store(self, ty, v, p):
        t = self.m.resolve(ty)
        if t[0] == 'struct':
            for i in range(len(t[1])):
                o, ft = self.m.field_off(t, i)
                self.store(ft, v[i], self.padd(p, o))
            return
        if t[0] == 'arr':
            s = self.m.sizeof(t[2])
            for i in range(t[1]):
                self.store(t[2], v[i], self.padd(p, i * s))
            return
        if t[0] == 'i' and t[1] == 1 and v is not UNDEF:
            v = self.cast('zext', ('i', 1), v, ('i', 8))
        self.w.store(self, p, self.m.sizeof(t), v)

    def padd(self, p, o):
        if isinstance(p, Ptr):
            return Ptr(p.o, p.off + o)
        if o == 0:
            return p
        return ('nulloff', o)

    # -- calls
    def call(self, name, args, nounwind=False):
        f = self.m.funcs.get(name)
        h = self.w.intercept(self, name, args, nounwind)
        if h is not None:
            return h[0]
        if f is None:
            return self.w.external(self, name, args, nounwind)
        self.depth += 1
        self.w.ob('termination')
        if f.nounwind:
            self.w.ob('terminate')
        if self.depth > self.DEPTH:
            raise Violation('termination', 'unbounded recursion in %s' % self.w.pretty(name))
        self.ctx.stats.funcs.add(name)
        if f.blocks is None:
            ir.decode(f, self.m)
        fr = Frame()
        fr.f = f
        fr.loc = {}
        fr.allocas = []
        for i, (ty, nm, by) in enumerate(f.params):
            v = args[i] if i < len(args) else UNDEF
            if by is not None:
                o = self.w.new_obj('byval', 'stack', self.m.sizeof(by), 16)
                self.w.copy_cells(self, Ptr(o, 0), v, self.m.sizeof(by))
                fr.allocas.append(o)
                v = Ptr(o, 0)
            fr.loc[nm if nm is not None else str(i)] = v
        self.frames.append(name)
        try:
            return self.run(fr)
        finally:
            self.depth -= 1
            self.frames.pop()
            for o in fr.allocas:
                self.w.end_stack(self, o)

    def run(self, fr):
        f = fr.f
        blk, prev = f.entry, None
        w, ctx = self.w, self.ctx
        pend = None            # pending exception when we land in a pad
        while True:
            ins = f.blocks[blk]
            i = 0
            # phis first, in parallel
            upd = []
            while i < len(ins) and ins[i][0] == 'phi':
                _, d, ty, inc = ins[i]
                for v, b in inc:
                    if b == prev:
                        upd.append((d, self.val(fr, ty, v)))
                        break
                i += 1
            for d, v in upd:
                fr.loc[d] = v
            nxt = None
            n = len(ins)
            while i < n:
                x = ins[i]
                i += 1
                self.steps += 1
                if self.steps > self.STEP_LIMIT:
                    raise Undecided('step limit: possible unbounded loop in %s' % w.pretty(f.name))
                op = x[0]
                if op == 'load':
                    fr.loc[x[1]] = self.load(x[2], self.val(fr, ('ptr',), x[3]))
                elif op == 'store':
                    self.store(x[1], self.val(fr, x[1], x[2]), self.val(fr, ('ptr',), x[3]))
                elif op == 'alloca':
                    cnt = 1
                    if x[3] is not None:
                        cnt = self.val(fr, x[3][0], x[3][1])
                        if is_sym(cnt):
                            raise Undecided('symbolic alloca')
                    o = w.new_obj('%' + x[1], 'stack', self.m.sizeof(x[2]) * cnt, max(x[4], 1))
                    fr.allocas.append(o)
                    fr.loc[x[1]] = Ptr(o, 0)
                elif op == 'gep':
                    fr.loc[x[1]] = self.gep(x[2], [(t, self.val(fr, t, o)) for t, o in x[3]])
                elif op in ('call', 'invoke'):
                    _, d, rty, callee, args, nu = x[:6]
                    if callee[0] == 'glob':
                        name = callee[1]
                        while name in self.m.aliases and self.m.aliases[name]:
                            name = self.m.aliases[name]
                    else:
                        fp = self.val(fr, ('ptr',), callee)
                        if not isinstance(fp, FnPtr):
                            raise Violation('memory', 'call through an invalid function pointer %r in %s'
                                            % (fp, w.pretty(f.name)))
                        name = fp.name
                    if isinstance(nu, tuple):
                        nu = 'nounwind' in self.m.attrs.get(nu[1], ())
                    if name.startswith('llvm.'):
                        r = self.intrinsic(fr, name, x)
                    else:
                        av = [self.val(fr, t, a) for t, a, _ in args]
                        for j, (t, a, by) in enumerate(args):
                            if by is not None and name not in self.m.funcs:
                                raise Undecided('byval argument to external function')
                        try:
                            r = self.call(name, av, nu)
                        except Unwind as u:
                            if op == 'call':
                                if f.nounwind:
                                    raise Violation('terminate', 'exception leaves noexcept function %s'
                                                    % w.pretty(f.name))
                                raise
                            lp = self.match_pad(f, x[7], u.exc)
                            if lp is None:
                                raise
                            pend = (u.exc, lp)
                            nxt = x[7]
                            break
                    if d is not None:
                        fr.loc[d] = r
                    if op == 'invoke':
                        nxt = x[6]
                        break
                elif op == 'br':
                    c = self.val(fr, ('i', 1), x[1])
                    if c is UNDEF:
                        raise Violation('uninit', 'branch on an uninitialised value in %s' % w.pretty(f.name))
                    nxt = x[2] if ctx.branch(c, w.pretty(f.name)) else x[3]
                    break
                elif op == 'jmp':
                    nxt = x[1]
                    break
                elif op == 'ret':
                    return None if x[1] is None else self.val(fr, x[1], x[2])
                elif op == 'icmp':
                    fr.loc[x[1]] = self.icmp(x[2], x[3], self.val(fr, x[3], x[4]), self.val(fr, x[3], x[5]))
                elif op == 'bin':
                    fr.loc[x[1]] = self.binop(x[2], x[3], self.val(fr, x[3], x[4]), self.val(fr, x[3], x[5]))
                elif op == 'cast':
                    fr.loc[x[1]] = self.cast(x[2], x[3], self.val(fr, x[3], x[4]), x[5])
                elif op == 'select':
                    c = self.val(fr, ('i', 1), x[2])
                    a, b = self.val(fr, x[3], x[4]), self.val(fr, x[3], x[5])
                    if c is UNDEF:
                        raise Violation('uninit', 'select on an uninitialised value')
                    c = tobool(c)
                    if c is True or c is False:
                        fr.loc[x[1]] = a if c else b
                    elif isinstance(a, (Ptr, FnPtr, tuple, list, Undef)) or isinstance(b, (Ptr, FnPtr, tuple, list, Undef)):
                        fr.loc[x[1]] = a if ctx.branch(c, 'select') else b
                    else:
                        t = self.m.resolve(x[3])
                        if t[0] == 'ptr':
                            fr.loc[x[1]] = a if ctx.branch(c, 'select') else b
                        elif t[1] == 1:
                            A, B = tobool(a), tobool(b)
                            fr.loc[x[1]] = norm(z3.If(c, A, B))
                        else:
                            fr.loc[x[1]] = norm(z3.If(c, bv(a, t[1]), bv(b, t[1])))
                elif op == 'extractvalue':
                    v = self.val(fr, x[2], x[3])
                    for k in x[4]:
                        v = v[k]
                    fr.loc[x[1]] = v
                elif op == 'insertvalue':
                    v = self.val(fr, x[2], x[3])
                    fr.loc[x[1]] = self.insert(v, x[6], self.val(fr, x[4], x[5]))
                elif op == 'landingpad':
                    if pend is None:
                        raise Undecided('landingpad reached normally')
                    exc, (sel) = pend
                    fr.loc[x[1]] = [Ptr(w.exc_obj(exc), 0), sel]
                    pend = None
                elif op == 'resume':
                    v = self.val(fr, x[1], x[2])
                    e = w.exc_of(v[0])
                    if f.nounwind:
                        raise Violation('terminate', 'exception leaves noexcept function %s' % w.pretty(f.name))
                    raise Unwind(e)
                elif op == 'unreachable':
                    raise Violation('unreachable', 'unreachable code executed in %s' % w.pretty(f.name))
                elif op == 'switch':
                    v = self.val(fr, x[1], x[2])
                    if v is UNDEF:
                        raise Violation('uninit', 'switch on an uninitialised value')
                    nbits = self.m.resolve(x[1])[1]
                    nxt = x[3]
                    for c, lab in x[4]:
                        cv = c[1] & ((1 << nbits) - 1) if isinstance(c, tuple) else c & ((1 << nbits) - 1)
                        q = (v == cv) if not is_sym(v) else (bv(v, nbits) == cv)
                        if ctx.branch(q, 'switch'):
                            nxt = lab
                            break
                    break
                elif op == 'freeze':
                    fr.loc[x[1]] = self.val(fr, x[2], x[3])
                elif op == 'nop':
                    pass
                elif op == 'atomicrmw':
                    _, d, k, ty, a, v = x
                    p = self.val(fr, ('ptr',), a)
                    old = self.load(ty, p)
                    nv = self.val(fr, ty, v)
                    if k != 'xchg':
                        nv = self.binop(k, ty, old, nv)
                    w.atomic = True
                    self.store(ty, nv, p)
                    w.atomic = False
                    fr.loc[d] = old
                elif op == 'cmpxchg':
                    _, d, ty, a, c, nv = x
                    p = self.val(fr, ('ptr',), a)
                    old = self.load(ty, p)
                    eq = self.icmp('eq', ty, old, self.val(fr, ty, c))
                    if ctx.branch(eq, 'cmpxchg'):
                        w.atomic = True
                        self.store(ty, self.val(fr, ty, nv), p)
                        w.atomic = False
                        fr.loc[d] = [old, 1]
                    else:
                        fr.loc[d] = [old, 0]
                else:
                    raise Undecided('instruction %r in %s' % (x[0:3], w.pretty(f.name)))
            if nxt is None:
                raise Undecided('fell off block')
            prev, blk = blk, nxt

    def insert(self, v, idx, x):
        v = list(v) if isinstance(v, list) else v
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insert(v[idx[0]], idx[1:], x)
        return v

    # -- exceptions
    def tid(self, ti):
        if ti not in self.tids:
            self.tids[ti] = len(self.tids) + 1
        return self.tids[ti]

    def match_pad(self, f, label, exc):
        """landing pad selector, or None when the exception passes by"""
        for x in f.blocks[label]:
            if x[0] == 'phi':
                continue
            if x[0] != 'landingpad':
                raise Undecided('no landingpad')
            _, d, cleanup, clauses = x
            for kind, v in clauses:
                if kind == 'filter':
                    return -1 & 0xffffffff
                ti = None if v[0] == 'null' else v[1] if v[0] == 'glob' else repr(v)
                if ti is None or self.exc_matches(exc, ti):
                    return self.tid(ti)
            if cleanup:
                return 0
            return None

    def exc_matches(self, exc, ti):
        if exc.ti is not None:
            if exc.ti == ti:
                return True
            # distinct type infos: could still be related by inheritance
            if exc.ti in self.w.fundamental_ti:
                return False
            raise Undecided('catch clause %s against thrown %s' % (ti, exc.ti))
        if ti not in exc.match:
            # an exception that is a T is also caught by handlers for T's bases
            if any(m and self.w.ti_derives(k, ti) for k, m in exc.match.items()):
                exc.match[ti] = True
            elif any(not m and self.w.ti_derives(ti, k) for k, m in exc.match.items()):
                exc.match[ti] = False
            else:
                exc.match[ti] = self.ctx.choose(2, 'exception is not a ' + ti) == 1
        return exc.match[ti]

    # -- intrinsics
    def intrinsic(self, fr, name, x):
        args = x[4]
        w = self.w
        A = lambda i: self.val(fr, args[i][0], args[i][1])
        if name.startswith(('llvm.dbg.', 'llvm.lifetime.', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.invariant')):
            return UNDEF
        if name.startswith(('llvm.memcpy.', 'llvm.memmove.')):
            n = A(2)
            if is_sym(n) or n is UNDEF:
                raise Undecided('symbolic memcpy length')
            w.memcpy(self, A(0), A(1), n)
            return None
        if name.startswith('llvm.memset.'):
            n = A(2)
            if is_sym(n) or is_sym(A(1)):
                raise Undecided('symbolic memset')
            w.memset(self, A(0), A(1), n)
            return None
        if name.startswith('llvm.assume'):
            c = A(0)
            if c is UNDEF:
                raise Violation('uninit', 'assume of uninitialised value')
            if not self.ctx.branch(c, 'assume'):
                raise Violation('unreachable', 'assumption of the code is false')
            return None
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            raise Violation('abort', 'trap executed')
        if name.startswith('llvm.eh.typeid.for'):
            v = A(0)
            return self.tid(v.o.name if isinstance(v, Ptr) else repr(v))
        if name.startswith('llvm.expect'):
            return A(0)
        if name.startswith(('llvm.launder', 'llvm.strip', 'llvm.ptr.annotation', 'llvm.threadlocal.address')):
            return A(0)
        if name.startswith('llvm.is.constant'):
            return 0
        if name.startswith('llvm.objectsize'):
            return M64
        if '.with.overflow.' in name:
            n = int(name.rsplit('.i', 1)[1])
            a, b = A(0), A(1)
            kind = name.split('.')[1]
            if is_sym(a) or is_sym(b):
                raise Undecided('symbolic overflow arithmetic')
            if kind[0] == 's':
                a = a - (1 << n) if a >> (n - 1) else a
                b = b - (1 << n) if b >> (n - 1) else b
            r = {'add': a + b, 'sub': a - b, 'mul': a * b}[kind[1:4]]
            m = r & ((1 << n) - 1)
            back = m - (1 << n) if kind[0] == 's' and m >> (n - 1) else m
            return [m, int(back != r)]
        for k, pr in (('umax', 'ugt'), ('umin', 'ult'), ('smax', 'sgt'), ('smin', 'slt')):
            if name.startswith('llvm.%s.' % k):
                a, b = A(0), A(1)
                t = args[0][0]
                return a if self.ctx.branch(self.icmp(pr, t, a, b), k) else b
        raise Undecided('intrinsic ' + name)

"""The operations of the public interface and their contracts.

Each Op is one C++ entry point (compiled from the real headers) together with
the roles of its parameters and a contract: a function that, given the abstract
state before and after one execution path, states the clauses that must hold.
"""
import re
import z3
from .exec import Ptr, UNDEF, NULL, is_sym, norm, bv, tobool
from .world import ufapp, SOCC, HASH, EQ, LT, STD_ID, STDNEW
from .harness import KINDS


class Op:
    def __init__(self, name, cat, params, body, roles, spec, need=None, ret='void', lib=None, twos=None, pre=None, nested=False):
        self.nested = nested
        self.name, self.cat, self.params, self.body, self.roles, self.spec = name, cat, params, body, roles, spec
        self.need, self.ret, self.lib, self.pre = need, ret, lib, pre

    def text(self, cfg):
        return 'extern "C" %s %s(%s) { %s }\n' % (self.ret, self.name, self.params, self.body)

    def ok(self, cfg):
        if self.lib and self.lib != cfg['lib']:
            return False
        return self.need is None or self.need(cfg, KINDS[cfg['kind']])


OPS = []


def op(*a, **k):
    OPS.append(Op(*a, **k))


# ---- contract helpers -------------------------------------------------------
def unchanged(R, h, what, tag='post', val=True):
    """handle h denotes the same allocator class, and the same object with the same value"""
    a, b = R.pre[h], R.post[h]
    R.cl(tag, '%s: %s valueless state unchanged' % (what, h), a.vl == b.vl)
    if not a.vl and not b.vl:
        R.cl(tag, '%s: %s still owns the same object' % (what, h), a.ident == b.ident)
        if val:
            R.cl(tag, '%s: value of %s unchanged' % (what, h), R.same_val(a.val, b.val))
    R.cl('alloc', '%s: allocator of %s unchanged' % (what, h), R.same_id(a.alloc, b.alloc))


def outcome(R, nothrow=False):
    """the operation throws exactly what an external function threw; returns True when it returned"""
    if R.out[0] == 'exc':
        ok = bool(R.w.threw) and R.out[1] is R.w.threw[-1]
        R.cl('exc', 'the exception that escapes is the one thrown by the element type or allocator', ok)
        return False
    R.cl('exc', 'no exception of the element type or allocator is swallowed', not R.w.threw)
    if nothrow:
        pass
    return True


def same_kind(k, want):
    return k == want or k == '*' and want in ('copy', 'move')      # '*': the bytewise copy of a trivially copyable object


def no_element_ops(R, why):
    evs = [e for e in R.ev if e['k'] in ('ctor', 'assign', 'alloc')]
    R.cl('post', 'no element is constructed or assigned and nothing is allocated (%s)' % why, not evs)


def new_object(R, h, cls, val, kind, args, how, strict=False):
    """h owns a new object of exactly class cls"""
    p = R.post[h]
    R.cl('post', 'the result owns a value', not p.vl)
    if p.vl:
        return
    R.cl('dyntype', 'the owned object has exactly the type %s' % cls, p.cls == cls)
    R.cl('post', 'the owned object is a new one', p.blk.fresh)
    if val is not None:
        R.cl('post', how + ': value', R.same_val(p.val, val))
    if p.inst is not None and kind is not None:
        mk = [e for e in R.ev if e['k'] == 'ctor' and e['inst'] is p.inst]
        R.cl('post', how + ': initialised by the expected constructor (%s)' % kind,
             len(mk) == 1 and same_kind(mk[0]['kind'], kind))
        if mk and args is not None:
            R.cl('post', how + ': constructor receives exactly the arguments that were passed',
                 R.same_args(mk[0]['args'], args))
    if strict:
        tev = [e for e in R.ev if e['k'] in ('ctor', 'assign', 'dtor')]
        R.cl('post', how + ': arguments are forwarded directly, without intermediate objects', len(tev) == (1 if p.inst is not None or (kind or '').startswith('args') else 0))


def alloc_is(R, h, a, what):
    R.cl('alloc', 'get_allocator() is a copy of %s' % what, R.same_id(R.post[h].alloc, a))


def K(R):
    return KINDS[R.cfg['kind']]


# ---- construction from arguments ---------------------------------------------
def spec_ctor(cls='T', kind='default', args=(), alloc='default', valfn=None):
    def f(R):
        if not outcome(R):
            return
        c = R.cfg['kind'] if cls == 'T' else R.cfg['kind'] + cls
        kd = kind(K(R), c) if callable(kind) else kind
        av = [R.arg[a] for a in args]
        val = None
        if K(R)['plain']:
            val = R.plain_expect(kd, args)
        elif kd in ('copy', 'move'):
            val = R.argval0[args[0]]
        new_object(R, 'self', c, val, kd, av, 'construction from arguments', strict=True)
        if alloc == 'default':
            alloc_is(R, 'self', R.default_id(), 'a default-constructed allocator')
        else:
            alloc_is(R, 'self', R.aid['a'], 'the allocator argument')
    return f


def defA(c, k):
    return not c['nodef']


def plainok(c, k):
    return not k['plain']


def N(*fs):
    return lambda c, k: all(f(c, k) for f in fs)


kdef = lambda c, k: k['default']
kcopy = lambda c, k: k['copy']
conc = lambda c, k: not k['abstract']
x14 = lambda c, k: c['cxx14']
x20 = lambda c, k: not c['cxx14']
hasx1 = lambda c, k: not k['plain'] or c['kind'] == 'PlainS'
notint = lambda c, k: c['kind'] != 'int'
lk = lambda k, c: k['lkind'].replace(k.get('_n', ''), k.get('_n', '')) if True else None


def lkind(k, c):
    return k['lkind'].replace('Greedy', c)


def clk(k, c):
    return 'copy'


def mk(k, c):
    return k['movekind']


IND, POL = 'ind', 'pol'
NEW = '::new (static_cast<void*>(s)) I'
for al in (False, True):
    p = 'std::allocator_arg, *a, ' if al else ''
    pp = ', const A* a' if al else ''
    rr = ['self:raw'] + (['a:alloc'] if al else [])
    nm = '_alloc' if al else ''
    who = 'a' if al else 'default'
    nd = (lambda c, k: True) if al else defA
    op('op_ctor_default' + nm, 'ctor', 'I* s' + pp, NEW + ('(std::allocator_arg, *a);' if al else '();'), rr,
       spec_ctor(kind='default', alloc=who), N(nd, kdef, conc))
    # from a value of the element type
    op('op_ctor_cl' + nm, 'ctor', 'I* s%s, const T* v' % pp, NEW + '(%s*v);' % p, rr + ['v:T'],
       spec_ctor(kind=clk, args=['v'], alloc=who), N(nd, kcopy, conc))
    op('op_ctor_l' + nm, 'ctor', 'I* s%s, T* v' % pp, NEW + '(%s*v);' % p, rr + ['v:T'],
       spec_ctor(kind=lkind, args=['v'], alloc=who), N(nd, kcopy, conc))
    op('op_ctor_r' + nm, 'ctor', 'I* s%s, T* v' % pp, NEW + '(%sstd::move(*v));' % p, rr + ['v:T'],
       spec_ctor(kind=mk, args=['v'], alloc=who), N(nd, conc, lambda c, k: k['mv']))
    # indirect: in place
    op('op_ctor_ip0' + nm, 'ctor', 'I* s' + pp, NEW + '(%sVX_IP);' % p, rr,
       spec_ctor(kind='default', alloc=who), N(nd, kdef), lib=IND)
    op('op_ctor_ipcl' + nm, 'ctor', 'I* s%s, const T* v' % pp, NEW + '(%sVX_IP, *v);' % p, rr + ['v:T'],
       spec_ctor(kind=clk, args=['v'], alloc=who), N(nd, kcopy), lib=IND)
    op('op_ctor_ip1' + nm, 'ctor', 'I* s%s, X1* x1' % pp, NEW + '(%sVX_IP, std::move(*x1));' % p, rr + ['x1:X1'],
       spec_ctor(kind='args(X1&&)', args=['x1'], alloc=who), N(nd, hasx1), lib=IND)
    op('op_ctor_ip2' + nm, 'ctor', 'I* s%s, X2* x2' % pp, NEW + '(%sVX_IP, *x2);' % p, rr + ['x2:X2'],
       spec_ctor(kind='args(X2 const&)', args=['x2'], alloc=who), N(nd, plainok, lambda c, k: c['kind'] != 'Greedy'), lib=IND)
    op('op_ctor_ip3' + nm, 'ctor', 'I* s%s, X1* x1, const X2* x2, X3* x3' % pp,
       NEW + '(%sVX_IP, std::move(*x1), *x2, *x3);' % p, rr + ['x1:X1', 'x2:X2', 'x3:X3'],
       spec_ctor(kind='args(X1&&,X2 const&,X3&)', args=['x1', 'x2', 'x3'], alloc=who), N(nd, plainok), lib=IND)
    op('op_ctor_il0' + nm, 'ctor', 'I* s%s, const IL* il' % pp, NEW + '(%sVX_IP, *il);' % p, rr + ['il:IL'],
       spec_ctor(kind='args(std::initializer_list<E>)', args=['il'], alloc=who), N(nd, plainok, lambda c, k: c['kind'] != 'Greedy'), lib=IND)
    op('op_ctor_il1' + nm, 'ctor', 'I* s%s, const IL* il, X1* x1' % pp, NEW + '(%sVX_IP, *il, std::move(*x1));' % p,
       rr + ['il:IL', 'x1:X1'],
       spec_ctor(kind='args(std::initializer_list<E>,X1&&)', args=['il', 'x1'], alloc=who), N(nd, plainok), lib=IND)
    op('op_ctor_conv' + nm, 'ctor', 'I* s%s, X1* x1' % pp, NEW + '(%sstd::move(*x1));' % p, rr + ['x1:X1'],
       spec_ctor(kind='args(X1&&)', args=['x1'], alloc=who), N(nd, x20, hasx1), lib=IND)
    # polymorphic: in place, exact type
    for c in ('T', 'U', 'M'):
        if c == 'T':
            dn = conc
        else:
            dn = lambda cf, k: not k['final']
        s = nm + '_' + c
        op('op_ctor_ip0' + s, 'ctor', 'I* s' + pp, NEW + '(%sVX_IPT(%s));' % (p, c), rr,
           spec_ctor(c, 'default', alloc=who), N(nd, kdef, dn), lib=POL)
        op('op_ctor_ipcl' + s, 'ctor', 'I* s%s, const %s* v' % (pp, c), NEW + '(%sVX_IPT(%s), *v);' % (p, c), rr + ['v:' + c],
           spec_ctor(c, clk, args=['v'], alloc=who), N(nd, dn), lib=POL)
        op('op_ctor_ip1' + s, 'ctor', 'I* s%s, X1* x1' % pp, NEW + '(%sVX_IPT(%s), std::move(*x1));' % (p, c), rr + ['x1:X1'],
           spec_ctor(c, 'args(X1&&)', args=['x1'], alloc=who), N(nd, dn), lib=POL)
        op('op_ctor_ip3' + s, 'ctor', 'I* s%s, X1* x1, const X2* x2, X3* x3' % pp,
           NEW + '(%sVX_IPT(%s), std::move(*x1), *x2, *x3);' % (p, c), rr + ['x1:X1', 'x2:X2', 'x3:X3'],
           spec_ctor(c, 'args(X1&&,X2 const&,X3&)', args=['x1', 'x2', 'x3'], alloc=who), N(nd, dn), lib=POL)
        op('op_ctor_il0' + s, 'ctor', 'I* s%s, const IL* il' % pp, NEW + '(%sVX_IPT(%s), *il);' % (p, c), rr + ['il:IL'],
           spec_ctor(c, 'args(std::initializer_list<E>)', args=['il'], alloc=who), N(nd, dn, lambda cf, k: cf['kind'] != 'Greedy'), lib=POL)
        op('op_ctor_il1' + s, 'ctor', 'I* s%s, const IL* il, X1* x1' % pp,
           NEW + '(%sVX_IPT(%s), *il, std::move(*x1));' % (p, c), rr + ['il:IL', 'x1:X1'],
           spec_ctor(c, 'args(std::initializer_list<E>,X1&&)', args=['il', 'x1'], alloc=who), N(nd, dn), lib=POL)
        if c != 'T':
            op('op_ctor_cl' + s, 'ctor', 'I* s%s, const %s* v' % (pp, c), NEW + '(%s*v);' % p, rr + ['v:' + c],
               spec_ctor(c, clk, args=['v'], alloc=who), N(nd, dn), lib=POL)
            op('op_ctor_l' + s, 'ctor', 'I* s%s, %s* v' % (pp, c), NEW + '(%s*v);' % p, rr + ['v:' + c],
               spec_ctor(c, lkind, args=['v'], alloc=who), N(nd, dn), lib=POL)
            op('op_ctor_r' + s, 'ctor', 'I* s%s, %s* v' % (pp, c), NEW + '(%sstd::move(*v));' % p, rr + ['v:' + c],
               spec_ctor(c, mk, args=['v'], alloc=who), N(nd, dn), lib=POL)


# ---- copy / move construction -------------------------------------------------
def spec_copy_ctor(ext):
    def f(R):
        o = R.pre['other']
        ok = outcome(R)
        unchanged(R, 'other', 'copy construction')
        if not ok:
            return
        if o.vl:
            R.cl('valueless', 'a copy of a valueless object is valueless', R.post['self'].vl)
        else:
            R.cl('valueless', 'a copy of an object that owns a value owns a value', not R.post['self'].vl)
            new_object(R, 'self', o.cls, o.val, 'copy', None, 'copy construction')
        alloc_is(R, 'self', R.aid['a'] if ext else R.socc(o.alloc),
                 'the allocator argument' if ext else 'select_on_container_copy_construction of the source\'s allocator')
    return f


def steal(R, src, dst, old):
    """ownership of old's object moves from src to dst"""
    if old.vl:
        R.cl('valueless', 'moving from a valueless object gives a valueless object', R.post[dst].vl)
    else:
        R.cl('valueless', '%s owns a value after the move' % dst, not R.post[dst].vl)
        if not R.post[dst].vl:
            R.cl('post', 'the object moved to is the very object that was owned by the source (address preserved)',
                 R.post[dst].ident == old.ident)
            R.cl('post', 'its value is unchanged', R.same_val(R.post[dst].val, old.val))
    if src is not None:
        R.cl('valueless', 'the source is valueless after giving up its object', R.post[src].vl)


def rebuilt(R, src, dst, old, how):
    """unequal allocators: a new object is move-constructed from the source's object"""
    if old.vl:
        R.cl('valueless', 'moving from a valueless object gives a valueless object', R.post[dst].vl)
        R.cl('valueless', 'a valueless source stays valueless', R.post[src].vl)
        return
    new_object(R, dst, old.cls, old.val, K(R)['movekind'] if not K(R)['plain'] else None, None, how)
    b = R.post[src]
    R.cl('valueless', 'the source keeps its (moved-from) object when elements are moved one by one', not b.vl)
    if not b.vl:
        R.cl('post', 'the source still owns the same object', b.ident == old.ident)


def spec_move_ctor(ext):
    def f(R):
        o = R.pre['other']
        ok = outcome(R)
        ao = o.alloc
        an = R.aid['a'] if ext else ao
        eq = R.decide(R.same_alloc(an, ao))
        if eq:
            R.cl('noexc', 'a move between equal allocators does not throw and runs no user code that may throw', ok)
        if not ok:
            # the element's own move constructor may have changed the source's value
            unchanged(R, 'other', 'failed move construction', val=not R.threw_in_move())
            return
        if eq:
            steal(R, 'other', 'self', o)
            no_element_ops(R, 'equal allocators')
        else:
            rebuilt(R, 'other', 'self', o, 'move construction with unequal allocators')
        alloc_is(R, 'self', an, 'the allocator argument' if ext else 'the source\'s allocator')
        R.cl('alloc', 'the source keeps its allocator', R.same_id(R.post['other'].alloc, ao))
    return f


op('op_copy_ctor', 'copy_ctor', 'I* s, const I* o', NEW + '(*o);', ['self:raw', 'other:h'], spec_copy_ctor(False), kcopy)
op('op_copy_ctor_nc', 'copy_ctor', 'I* s, I* o', NEW + '(*o);', ['self:raw', 'other:h'], spec_copy_ctor(False), kcopy)
op('op_copy_ctor_crv', 'copy_ctor', 'I* s, const I* o', NEW + '(std::move(*o));', ['self:raw', 'other:h'], spec_copy_ctor(False), kcopy)
op('op_copy_ctor_alloc', 'copy_ctor', 'I* s, const A* a, const I* o', NEW + '(std::allocator_arg, *a, *o);',
   ['self:raw', 'a:alloc', 'other:h'], spec_copy_ctor(True), kcopy)
op('op_copy_ctor_alloc_nc', 'copy_ctor', 'I* s, const A* a, I* o', NEW + '(std::allocator_arg, *a, *o);',
   ['self:raw', 'a:alloc', 'other:h'], spec_copy_ctor(True), kcopy)
op('op_move_ctor', 'move_ctor', 'I* s, I* o', NEW + '(std::move(*o));', ['self:raw', 'other:h'], spec_move_ctor(False))
op('op_move_ctor_alloc', 'move_ctor', 'I* s, const A* a, I* o', NEW + '(std::allocator_arg, *a, std::move(*o));',
   ['self:raw', 'a:alloc', 'other:h'], spec_move_ctor(True), lambda c, k: k['mv'] or c['iae'])


# ---- destruction ---------------------------------------------------------------
def spec_dtor(R):
    R.cl('exc', 'destruction does not throw', R.out[0] == 'ret')
    p = R.pre['self']
    d = [e for e in R.ev if e['k'] == 'dtor']
    f = [e for e in R.ev if e['k'] == 'dealloc']
    if p.vl:
        R.cl('post', 'destroying a valueless object does nothing to any element or storage', not d and not f)
    else:
        R.cl('post', 'the owned object is destroyed exactly once', (len(d) == 1 and d[0]['inst'] is p.inst) if p.inst is not None and p.cls not in R.mod.cl.triv else not d)
        R.cl('post', 'its storage is returned exactly once', len(f) == 1 and f[0]['blk'] is p.blk)
    no_element_ops(R, 'destruction')


op('op_dtor', 'dtor', 'I* s', 's->~I();', ['self:h:dead'], spec_dtor)


# ---- assignment -----------------------------------------------------------------
def returns_self(R):
    R.cl('post', 'the assignment returns a reference to its left operand',
         R.out[0] != 'ret' or R.out[1] == R.arg['self'])


def spec_nested_assign(R, move):
    """the source is a handle inside the object that the target owns"""
    s, o = R.pre['self'], R.pre['other']
    ok = outcome(R)
    gone = 'other' in R.gone
    if move and R.decide(R.same_alloc(s.alloc, o.alloc)):
        R.cl('noexc', 'a move between equal allocators does not throw', ok)
    if not ok:
        unchanged(R, 'self', 'failed assignment (strong guarantee)', tag='strong', val=not R.threw_in_assign())
        R.cl('strong', 'failed assignment: the object that contains the source is not destroyed', not gone)
        if not gone:
            unchanged(R, 'other', 'failed assignment (source)', tag='strong', val=not (move and R.threw_in_move()))
        return
    returns_self(R)
    p = R.post['self']
    if o.vl:
        R.cl('valueless', 'assigning from a valueless object makes the target valueless', p.vl)
    else:
        R.cl('valueless', 'assigning from an object that owns a value leaves the target with a value', not p.vl)
        if not p.vl:
            R.cl('dyntype', 'the target owns exactly the type of the source object', p.cls == o.cls)
            R.cl('post', 'the target has the value the source had', R.same_val(p.val, o.val))
            if move and R.decide(R.same_alloc(s.alloc, o.alloc)):
                R.cl('post', 'the object moved to is the very object that was owned by the source', p.ident == o.ident)
    if o.vl or move:
        R.cl('post', 'the object that contained the source is destroyed', gone)
    elif not gone:
        R.cl('post', 'the source is alive only if the object that contains it is still owned', p.ident == s.ident)
        if p.ident == s.ident:
            unchanged(R, 'other', 'copy assignment (source)')
    prop = R.cfg['pocma' if move else 'pocca']
    alloc_is(R, 'self', o.alloc if prop else s.alloc,
             'the source\'s allocator (it propagates)' if prop else 'its own previous allocator (no propagation)')


def spec_copy_assign(R):
    if R.nested:
        return spec_nested_assign(R, False)
    s, o = R.pre['self'], R.pre['other']
    ok = outcome(R)
    if R.alias:
        R.cl('exc', 'self-assignment has nothing that can throw', ok)
        unchanged(R, 'self', 'self copy-assignment')
        no_element_ops(R, 'self-assignment') if not R.cfg.get('lenient_self') else None
        if ok:
            returns_self(R)
        return
    unchanged(R, 'other', 'copy assignment (source)')
    if not ok:
        # only the element's own assignment may have changed the element's value
        unchanged(R, 'self', 'failed copy assignment (strong guarantee)', tag='strong', val=not R.threw_in_assign())
        return
    returns_self(R)
    if o.vl:
        R.cl('valueless', 'copying from a valueless object makes the target valueless', R.post['self'].vl)
    else:
        p = R.post['self']
        R.cl('valueless', 'copying from an object that owns a value leaves the target with a value', not p.vl)
        if not p.vl:
            R.cl('dyntype', 'the copy has exactly the type of the source object', p.cls == o.cls)
            R.cl('post', 'the copy is a distinct object', p.ident != o.ident)
            R.cl('post', 'the copy has the value of the source', R.same_val(p.val, o.val))
            if R.cfg['lib'] == 'ind' and K(R)['casg'] and K(R)['masg'] and not s.vl and \
                    R.decide(R.same_alloc(s.alloc, o.alloc)):
                R.cl('post', 'assignment between equal allocators assigns to the existing object', p.ident == s.ident)
    alloc_is(R, 'self', o.alloc if R.cfg['pocca'] else s.alloc,
             'the source\'s allocator (it propagates)' if R.cfg['pocca'] else 'its own previous allocator (no propagation)')


def spec_move_assign(R):
    if R.nested:
        return spec_nested_assign(R, True)
    s, o = R.pre['self'], R.pre['other']
    ok = outcome(R)
    if R.alias:
        R.cl('exc', 'self-move-assignment has nothing that can throw', ok)
        unchanged(R, 'self', 'self move-assignment')
        no_element_ops(R, 'self-assignment')
        if ok:
            returns_self(R)
        return
    eq = R.decide(R.same_alloc(s.alloc, o.alloc))
    if eq:
        R.cl('noexc', 'a move between equal allocators does not throw', ok)
    if not ok:
        unchanged(R, 'self', 'failed move assignment (strong guarantee)', tag='strong')
        unchanged(R, 'other', 'failed move assignment (source)', tag='strong', val=not R.threw_in_move())
        return
    returns_self(R)
    if eq:
        steal(R, 'other', 'self', o)
        no_element_ops(R, 'equal allocators')
    elif o.vl:
        R.cl('valueless', 'moving from a valueless object makes the target valueless', R.post['self'].vl)
        R.cl('valueless', 'a valueless source stays valueless', R.post['other'].vl)
    elif R.cfg['pocma'] and R.post['other'].vl:
        steal(R, 'other', 'self', o)
    else:
        rebuilt(R, 'other', 'self', o, 'move assignment between unequal allocators')
    alloc_is(R, 'self', o.alloc if R.cfg['pocma'] else s.alloc,
             'the source\'s allocator (it propagates)' if R.cfg['pocma'] else 'its own previous allocator (no propagation)')
    R.cl('alloc', 'the source keeps its allocator', R.same_id(R.post['other'].alloc, o.alloc))


kcasg = lambda c, k: k['copy'] and (k['casg'] or c['lib'] == 'pol')
RETA = 'return std::addressof(*s = '
op('op_copy_assign', 'copy_assign', 'I* s, const I* o', RETA + '*o);', ['self:h', 'other:h'], spec_copy_assign, kcasg, ret='I*', nested=True)
op('op_copy_assign_nc', 'copy_assign', 'I* s, I* o', RETA + '*o);', ['self:h', 'other:h'], spec_copy_assign, kcasg, ret='I*')
op('op_move_assign', 'move_assign', 'I* s, I* o', RETA + 'std::move(*o));', ['self:h', 'other:h'], spec_move_assign, lambda c, k: k['mv'], ret='I*', nested=True)


def spec_conv_assign(kind, kinda, arg):
    def f(R):
        s = R.pre['self']
        ok = outcome(R)
        k = K(R)
        kc = kind(k, R.cfg['kind']) if callable(kind) else kind
        ka = kinda(k, R.cfg['kind']) if callable(kinda) else kinda
        if not ok:
            unchanged(R, 'self', 'failed assignment from a value (strong guarantee)', tag='strong', val=not R.threw_in_assign())
            return
        returns_self(R)
        p = R.post['self']
        R.cl('valueless', 'assignment from a value leaves a value', not p.vl)
        if p.vl:
            return
        if k['plain']:
            R.cl('post', 'assignment from a value: value', R.same_val(p.val, R.plain_expect(kc, [arg])))
        if s.vl:
            new_object(R, 'self', R.cfg['kind'], R.argval0[arg] if kc in ('copy', 'move') and not k['plain'] else None,
                       None if k['plain'] else kc, [R.arg[arg]], 'assignment to a valueless object constructs', strict=True)
        else:
            R.cl('post', 'assignment from a value assigns to the existing object', p.ident == s.ident)
            if not k['plain']:
                asg = [e for e in R.ev if e['k'] == 'assign']
                R.cl('post', 'the owned object is assigned exactly once, from the forwarded argument (%s)' % ka,
                     len(asg) == 1 and asg[0]['inst'] is s.inst and same_kind(asg[0]['kind'], ka) and R.same_args(asg[0]['args'], [R.arg[arg]]))
                R.cl('post', 'no other element operation happens',
                     not [e for e in R.ev if e['k'] in ('ctor', 'dtor', 'alloc', 'dealloc')])
        alloc_is(R, 'self', s.alloc, 'its own previous allocator')
    return f


cv20 = lambda c, k: k['asgx'] or k['plain']
asgl = lambda k, c: k['asglkind'] or 'copy'
op('op_asg_cl', 'conv_assign', 'I* s, const T* v', RETA + '*v);', ['self:h', 'v:T'],
   spec_conv_assign('copy', 'copy', 'v'), N(kcopy, lambda c, k: k['casg'] and k['masg']), ret='I*', lib=IND)
op('op_asg_l', 'conv_assign', 'I* s, T* v', RETA + '*v);', ['self:h', 'v:T'],
   spec_conv_assign(lkind, asgl, 'v'), N(kcopy, lambda c, k: k['casg'] and k['masg']), ret='I*', lib=IND)
op('op_asg_r', 'conv_assign', 'I* s, T* v', RETA + 'std::move(*v));', ['self:h', 'v:T'],
   spec_conv_assign(mk, mk, 'v'), N(lambda c, k: k['masg']), ret='I*', lib=IND)
op('op_asg_x1', 'conv_assign', 'I* s, X1* x1', RETA + 'std::move(*x1));', ['self:h', 'x1:X1'],
   spec_conv_assign('args(X1&&)', 'args(X1&&)', 'x1'), N(lambda c, k: k['asgx'] and not k['plain']), ret='I*', lib=IND)
op('op_asg_x2', 'conv_assign', 'I* s, X2* x2', RETA + '*x2);', ['self:h', 'x2:X2'],
   spec_conv_assign('args(X2 const&)', 'args(X2 const&)', 'x2'), N(lambda c, k: k['asgx'] and not k['plain'] and c['kind'] != 'Greedy'), ret='I*', lib=IND)
op('op_asg_x4', 'conv_assign', 'I* s, X4* x4', RETA + 'std::move(*x4));', ['self:h', 'x4:X4'],
   spec_conv_assign('args(X4&&)', 'args(X4&&)', 'x4'), N(lambda c, k: k['asgx'] and not k['plain']), ret='I*', lib=IND)
op('op_asg_x4l', 'conv_assign', 'I* s, const X4* x4', RETA + '*x4);', ['self:h', 'x4:X4'],
   spec_conv_assign('args(X4 const&)', 'args(X4 const&)', 'x4'), N(lambda c, k: k['asgx'] and not k['plain']), ret='I*', lib=IND)


# ---- swap -----------------------------------------------------------------------
def spec_swap(R):
    R.cl('exc', 'swap does not throw', R.out[0] == 'ret')
    R.cl('exc', 'swap runs no user code that may throw', not R.w.threw)
    no_element_ops(R, 'swap')
    R.cl('post', 'swap destroys nothing', not [e for e in R.ev if e['k'] in ('dtor', 'dealloc')])
    if R.alias:
        unchanged(R, 'self', 'self-swap')
        return
    s, o = R.pre['self'], R.pre['other']
    for a, b in (('self', o), ('other', s)):
        p = R.post[a]
        R.cl('valueless', 'swap exchanges the valueless state', p.vl == b.vl)
        if not p.vl and not b.vl:
            R.cl('post', 'swap exchanges the owned objects themselves', p.ident == b.ident)
            R.cl('post', 'swap leaves both values unchanged', R.same_val(p.val, b.val))
    if R.cfg['pocs']:
        alloc_is(R, 'self', o.alloc, 'the other\'s allocator (it propagates on swap)')
        R.cl('alloc', 'the other operand receives this allocator', R.same_id(R.post['other'].alloc, s.alloc))
    else:
        alloc_is(R, 'self', s.alloc, 'its own allocator')
        R.cl('alloc', 'the other operand keeps its allocator', R.same_id(R.post['other'].alloc, o.alloc))


def pre_swap(R):
    # precondition: propagate_on_container_swap or equal allocators
    if not R.cfg['pocs'] and not R.alias:
        R.assume(R.same_alloc(R.pre['self'].alloc, R.pre['other'].alloc))


op('op_swap_member', 'swap', 'I* s, I* o', 's->swap(*o);', ['self:h', 'other:h'], spec_swap, pre=pre_swap)
op('op_swap_friend', 'swap', 'I* s, I* o', 'using std::swap; swap(*s, *o);', ['self:h', 'other:h'], spec_swap, pre=pre_swap)


# ---- accessors --------------------------------------------------------------------
def spec_access(R):
    R.cl('exc', 'accessors do not throw', R.out[0] == 'ret')
    unchanged(R, 'self', 'access')
    no_element_ops(R, 'access')
    R.cl('post', 'the accessor denotes the owned object', R.out[0] != 'ret' or R.out[1] == R.pre['self'].addr)


def pre_valued(R):
    if R.pre['self'].vl:
        R.skip()


for nm, par, ex in (('deref_c', 'const I* s', '**s'), ('deref', 'I* s', '**s')):
    op('op_' + nm, 'access', par, 'return std::addressof(%s);' % ex, ['self:hc' if 'const' in par else 'self:h'], spec_access, ret='const T*', pre=pre_valued)
op('op_deref_r', 'access', 'I* s', 'T&& r = *std::move(*s); return std::addressof(r);', ['self:h'], spec_access, ret='const T*', pre=pre_valued, lib=IND)
op('op_deref_cr', 'access', 'const I* s', 'const T&& r = *std::move(*s); return std::addressof(r);', ['self:hc'], spec_access, ret='const T*', pre=pre_valued, lib=IND)
op('op_arrow', 'access', 'I* s', 'return vx_raw(s->operator->());', ['self:h'], spec_access, ret='const T*', pre=pre_valued)
op('op_arrow_c', 'access', 'const I* s', 'return vx_raw(s->operator->());', ['self:hc'], spec_access, ret='const T*', pre=pre_valued)


def spec_valueless(R):
    unchanged(R, 'self', 'valueless_after_move')
    R.cl('valueless', 'valueless_after_move() is true exactly when nothing is owned',
         R.out[0] == 'ret' and R.bool_is(R.out[1], not R.reach['self']))


op('op_valueless', 'access', 'const I* s', 'return s->valueless_after_move();', ['self:hc'], spec_valueless, ret='bool')


def spec_getalloc(R):
    unchanged(R, 'self', 'get_allocator')
    no_element_ops(R, 'get_allocator')
    R.cl('alloc', 'get_allocator() returns a copy of the allocator held', R.out[0] == 'ret' and R.same_id(R.out[1], R.pre['self'].alloc))


op('op_get_allocator', 'access', 'const I* s', 'A a(s->get_allocator()); return vx_id(a);', ['self:hc'], spec_getalloc, ret='long')


# ---- comparison -------------------------------------------------------------------
CMPS = ['==', '!=', '<', '>', '<=', '>=']


def cmpk(n, mixed_rev=False):
    # the C++14 header forwards each operator to the element's own operator
    return lambda c, k: k['cmp'] is not None and not (c['cxx14'] and k['cmp'] == 'VX_CMPLT' and n not in ('eq', 'ne', 'lt'))




def weak(R):
    """does the library document a synthesised (operator<) ordering for these operands?"""
    c = K(R)['cmp']
    mixed = any(x.endswith((':HD', ':D')) for x in R.op.roles)
    if R.cfg['cxx14']:
        return False
    return c in ('VX_CMPLT', 'VX_CMP6') or mixed   # no operator<=>, or T and D have no common reference


def truth(R, opr, a, b):
    """value-level meaning of a opr b for the element type"""
    W = R.w
    if weak(R):
        # ordering synthesised from operator<
        W.relaxioms(a, b)
        return {'==': EQ(a, b), '!=': z3.Not(EQ(a, b)), '<': LT(a, b), '>': LT(b, a),
                '<=': z3.Not(LT(b, a)), '>=': z3.Not(LT(a, b))}[opr]
    return W.rel(opr, a, b)


def spec_cmp(opr, lhs, rhs):
    """lhs/rhs: ('h',role) handle or ('v',role) plain value"""
    def f(R):
        ok = outcome(R)
        for r in ('self', 'other'):
            if r in R.pre:
                unchanged(R, r, 'comparison')
        no_element_ops(R, 'comparison')
        if not ok:
            return
        def side(x):
            if x[0] == 'h':
                v = R.pre[x[1]]
                return (v.vl, None if v.vl else v.val)
            return (False, R.argval0[x[1]])
        (lv, a), (rv, b) = side(lhs), side(rhs)
        if lv or rv:
            # valueless compares equal to valueless and less than everything else
            exp = {'==': lv and rv, '!=': not (lv and rv), '<': lv and not rv, '>': rv and not lv,
                   '<=': lv, '>=': rv}[opr]
            R.cl('post', 'comparison with a valueless operand: valueless %s' % opr, R.bool_is(R.out[1], exp))
            R.cl('post', 'a valueless operand is not dereferenced', not [e for e in R.ev if e['k'] == 'cmp'])
        else:
            R.cl('post', 'comparison agrees with the comparison of the owned values (%s)' % opr,
                 R.bool_is(R.out[1], truth(R, opr, a, b)))
            if lhs[0] == 'h' or R.cfg['cxx14'] and not any(x.endswith(':D') for x in R.op.roles):
                in_order(R, a, b)           # otherwise the language itself exchanges the operands
    return f


def in_order(R, a, b, ops=('==', '!=')):
    R.cl('post', 'the owned values are compared in the given operand order',
         all(z3.eq(z3.simplify(x), z3.simplify(a)) and z3.eq(z3.simplify(y), z3.simplify(b)) for x, y in (e['vals'] for e in R.ev if e['k'] == 'cmp' and e['op'] in ops)))


for i, o in enumerate(CMPS):
    n = ['eq', 'ne', 'lt', 'gt', 'le', 'ge'][i]
    op('op_cmp_%s_hh' % n, 'compare', 'const I* s, const I* o', 'return *s %s *o;' % o, ['self:hc', 'other:hc'],
       spec_cmp(o, ('h', 'self'), ('h', 'other')), cmpk(n), ret='bool', lib=IND)
    op('op_cmp_%s_hH' % n, 'compare', 'const I* s, const ID* o', 'return *s %s *o;' % o, ['self:hc', 'other:HD'],
       spec_cmp(o, ('h', 'self'), ('h', 'other')), cmpk(n), ret='bool', lib=IND)
    op('op_cmp_%s_hv' % n, 'compare', 'const I* s, const T* v', 'return *s %s *v;' % o, ['self:hc', 'v:T'],
       spec_cmp(o, ('h', 'self'), ('v', 'v')), cmpk(n), ret='bool', lib=IND)
    op('op_cmp_%s_vh' % n, 'compare', 'const I* s, const T* v', 'return *v %s *s;' % o, ['self:hc', 'v:T'],
       spec_cmp(o, ('v', 'v'), ('h', 'self')), cmpk(n), ret='bool', lib=IND)
    op('op_cmp_%s_hd' % n, 'compare', 'const I* s, const D* v', 'return *s %s *v;' % o, ['self:hc', 'v:D'],
       spec_cmp(o, ('h', 'self'), ('v', 'v')), cmpk(n), ret='bool', lib=IND)
    op('op_cmp_%s_dh' % n, 'compare', 'const I* s, const D* v', 'return *v %s *s;' % o, ['self:hc', 'v:D'],
       spec_cmp(o, ('v', 'v'), ('h', 'self')), cmpk(n), ret='bool', lib=IND)


def spec_tw(lhs, rhs):
    def f(R):
        ok = outcome(R)
        for r in ('self', 'other'):
            if r in R.pre:
                unchanged(R, r, 'three-way comparison')
        if not ok:
            return
        def side(x):
            if x[0] == 'h':
                v = R.pre[x[1]]
                return (v.vl, None if v.vl else v.val)
            return (False, R.argval0[x[1]])
        (lv, a), (rv, b) = side(lhs), side(rhs)
        if lv or rv:
            exp = 0 if lv and rv else -1 if lv else 1
            R.cl('post', 'three-way comparison with a valueless operand', R.int_is(R.out[1], exp & 0xffffffff, 32))
            R.cl('post', 'a valueless operand is not dereferenced', not [e for e in R.ev if e['k'] == 'cmp'])
        else:
            R.w.relaxioms(a, b)
            c = lambda k: z3.BitVecVal(k, 32)
            if weak(R):
                exp = z3.If(LT(a, b), c(-1), z3.If(LT(b, a), c(1), c(0)))
            else:
                exp = z3.If(LT(a, b), c(-1), z3.If(EQ(a, b), c(0), z3.If(LT(b, a), c(1), c(9))))
            R.cl('post', 'three-way comparison agrees with that of the owned values', R.int_is(R.out[1], exp, 32))
            if lhs[0] == 'h':
                in_order(R, a, b, ('==', '!=', '<=>'))
    return f


TW = 'auto r = %s; return r < 0 ? -1 : r > 0 ? 1 : r == 0 ? 0 : 9;'
cmptw = lambda c, k: k['cmp'] is not None and not c['cxx14']
op('op_tw_hh', 'compare', 'const I* s, const I* o', TW % '*s <=> *o', ['self:hc', 'other:hc'], spec_tw(('h', 'self'), ('h', 'other')), cmptw, ret='int', lib=IND)
op('op_tw_hH', 'compare', 'const I* s, const ID* o', TW % '*s <=> *o', ['self:hc', 'other:HD'], spec_tw(('h', 'self'), ('h', 'other')), cmptw, ret='int', lib=IND)
op('op_tw_hv', 'compare', 'const I* s, const T* v', TW % '*s <=> *v', ['self:hc', 'v:T'], spec_tw(('h', 'self'), ('v', 'v')), cmptw, ret='int', lib=IND)
op('op_tw_vh', 'compare', 'const I* s, const T* v', TW % '*v <=> *s', ['self:hc', 'v:T'], spec_tw(('v', 'v'), ('h', 'self')), cmptw, ret='int', lib=IND)


# ---- hash -------------------------------------------------------------------------
hashk = lambda c, k: k['hash']


def spec_hash(R):
    ok = outcome(R)
    unchanged(R, 'self', 'hash')
    no_element_ops(R, 'hash')
    if not ok:
        return
    s = R.pre['self']
    if s.vl:
        R.cl('post', 'hashing a valueless object calls no user code', not [e for e in R.ev if e['k'] == 'hash'])
        R.cl('post', 'the hash of a valueless object is a fixed value', not is_sym(R.out[1]) and isinstance(R.out[1], int))
    else:
        R.cl('post', 'the hash is the hash of the owned value', R.int_is(R.out[1], HASH(s.val), 64))


def spec_hash2(R):
    ok = outcome(R)
    if not ok:
        return
    s, o = R.pre['self'], R.pre['other']
    if s.vl and o.vl:
        R.cl('post', 'all valueless objects have the same hash', R.bool_is(R.out[1], True))
    elif not s.vl and not o.vl:
        R.cl('post', 'equal values have equal hashes',
             z3.Implies(HASH(s.val) == HASH(o.val), R.boolz(R.out[1])))


op('op_hash', 'hash', 'const I* s', 'return std::hash<I>{}(*s);', ['self:hc'], spec_hash, hashk, ret='unsigned long', lib=IND)
op('op_hash2', 'hash', 'const I* s, const I* o', 'return std::hash<I>{}(*s) == std::hash<I>{}(*o);', ['self:hc', 'other:hc'], spec_hash2, hashk, ret='bool', lib=IND)

# ---- declared types and exception specifications ---------------------------------------
def fact(what):
    def f(R):
        R.cl('fact', what, R.out[0] == 'ret' and R.bool_is(R.out[1], True))
    return f


def nx(name, expr, what, need=None, **k):
    op('ty_nx_' + name, 'type_noexcept', '', 'return %s;' % expr, [], fact(what + ' is declared non-throwing'), need, ret='bool', **k)


def ty(name, expr, what, need=None, **k):
    op('ty_' + name, 'type_access', '', 'return %s;' % expr, [], fact(what), need, ret='bool', **k)


def dv(t):
    return 'std::declval<%s>()' % t


nx('dtor', 'noexcept(%s.~I())' % dv('I&'), 'destruction')
nx('move_ctor', 'noexcept(I(%s))' % dv('I'), 'move construction')
nx('move_ctor_alloc', 'noexcept(I(std::allocator_arg, %s, %s))' % (dv('const A&'), dv('I')),
   'allocator-extended move construction with always-equal allocators', lambda c, k: c['iae'] or c['alloc'] == 'std')
nx('move_assign', 'noexcept(%s = %s)' % (dv('I&'), dv('I')), 'move assignment with propagating or always-equal allocators',
   lambda c, k: c['pocma'] or c['iae'])
nx('swap', 'noexcept(%s.swap(%s))' % (dv('I&'), dv('I&')), 'swap with propagating or always-equal allocators', lambda c, k: c['pocs'] or c['iae'])
nx('swap_friend', 'noexcept(swap(%s, %s))' % (dv('I&'), dv('I&')), 'swap with propagating or always-equal allocators', lambda c, k: c['pocs'] or c['iae'])
nx('valueless', 'noexcept(%s.valueless_after_move())' % dv('const I&'), 'valueless_after_move()')
nx('get_allocator', 'noexcept(%s.get_allocator())' % dv('const I&'), 'get_allocator()')
nx('deref', 'noexcept(*%s) && noexcept(*%s)' % (dv('I&'), dv('const I&')), 'dereference')
nx('deref_r', 'noexcept(*%s) && noexcept(*%s)' % (dv('I'), dv('const I')), 'dereference of an rvalue')
nx('arrow', 'noexcept(%s.operator->()) && noexcept(%s.operator->())' % (dv('I&'), dv('const I&')), 'member access')

# a comparison is declared non-throwing when the comparison of the elements is (DRAFT.md; for == and hence !=)
for i, o in enumerate(('==', '!=')):
    for l, r in (('J', 'J'), ('J', 'E'), ('E', 'J'), ('J', 'K')):
        op('ty_nx_cmp%d_%s%s' % (i, l, r), 'type_noexcept', '', 'struct E { bool operator==(const E&) const noexcept; bool operator!=(const E&) const noexcept; }; '
           'using B = typename std::allocator_traits<A>::template rebind_alloc<E>; using J = VX_TMPL<E, B>; using K = VX_TMPL<E, std::allocator<E>>; '
           'return noexcept(%s %s %s);' % (dv('const %s&' % l), o, dv('const %s&' % r)), [], fact('comparison with %s of elements whose comparison is' % o + ' is declared non-throwing'), ret='bool', lib=IND)


def same(a, b):
    return 'std::is_same<decltype(%s), %s>::value' % (a, b)


ty('deref', same('*' + dv('I&'), 'T&'), 'dereferencing a mutable object gives mutable access')
ty('deref_c', same('*' + dv('const I&'), 'const T&'), 'dereferencing a const object gives const access')
ty('deref_r', same('*' + dv('I'), 'T&&'), 'dereferencing an rvalue gives an rvalue', lib=IND)
ty('deref_cr', same('*' + dv('const I'), 'const T&&'), 'dereferencing a const rvalue gives a const rvalue', lib=IND)
ty('deref_pr', 'std::is_same<std::remove_reference_t<decltype(*%s)>, const T>::value' % dv('const I'), 'dereferencing a const rvalue gives const access', lib=POL)
ty('arrow', same(dv('I&') + '.operator->()', 'typename std::allocator_traits<A>::pointer'), 'member access through a mutable object is mutable')
ty('arrow_c', same(dv('const I&') + '.operator->()', 'typename std::allocator_traits<A>::const_pointer'), 'member access through a const object is const')
ty('alloc', same(dv('const I&') + '.get_allocator()', 'A') + ' && std::is_same<typename I::allocator_type, A>::value', 'get_allocator() has the declared allocator type')
ty('value', 'std::is_same<typename I::value_type, T>::value', 'value_type is the element type')

# the comparison category is that of the elements, weak_ordering where it is synthesised from operator<
def cat(name, l, r, want, what, need):
    op('ty_cmp_' + name, 'type_compare', '', 'return std::is_same<decltype(%s <=> %s), %s>::value;' % (dv('const %s&' % l), dv('const %s&' % r), want),
       [], fact(what), need, ret='bool', lib=IND)


for l, r in (('I', 'I'), ('I', 'ID'), ('I', 'T'), ('I', 'D')):
    syn = lambda c, k, l=l, r=r: cmptw(c, k) and (k['cmp'] != 'VX_CMP3' or 'D' in l + r)
    cat('syn_%s%s' % (l, r), l, r, 'std::weak_ordering', 'three-way comparison synthesised from operator< is a weak ordering', syn)
    cat('own_%s%s' % (l, r), l, r, 'std::partial_ordering', 'three-way comparison has the category of the elements', lambda c, k, syn=syn: cmptw(c, k) and not syn(c, k))
for e, w in (('int', 'strong'), ('double', 'partial')):
    for r in ('xyz::indirect<%s>' % e, 'xyz::indirect<%s, AA>' % e, e):
        n = e + ('v' if r == e else 'a' if 'AA' in r else 'h')
        op('ty_cmp_' + n, 'type_compare', '', 'using AA = typename std::allocator_traits<A>::template rebind_alloc<%s>; return std::is_same<decltype(%s <=> %s), std::%s_ordering>::value;' % (
            e, dv('const xyz::indirect<%s>&' % e), dv('const %s&' % r), w), [], fact('three-way comparison of %s has the category of the elements' % e), cmptw, ret='bool', lib=IND)
for i, o in enumerate(CMPS):
    for l, r in (('I', 'I'), ('I', 'ID'), ('I', 'T'), ('T', 'I')):
        op('ty_cmp_bool%d_%s%s' % (i, l, r), 'type_compare', '', 'return std::is_same<decltype(%s %s %s), bool>::value;' % (dv('const %s&' % l), o, dv('const %s&' % r)),
           [], fact('comparison yields bool'), cmpk(['eq', 'ne', 'lt', 'gt', 'le', 'ge'][i]), ret='bool', lib=IND)

# ---- which uses exist: the documented constraints, as facts about the declarations ----
def ex(name, expr, what, need=None, **k):
    op('ty_ex_' + name, 'type_exists', '', 'return %s;' % expr, [], fact(what), need, ret='bool', **k)


def argname(a):
    return a.replace('const ', 'c').replace('&&', '_r').replace('&', '_l').replace('<', '_').replace('>', '').replace('::', '').replace('*', '_p')


AL = 'std::allocator_arg_t, const A&'
notgreedy = lambda c, k: c['kind'] != 'Greedy'
VALS = ['T', 'T&', 'const T&', 'X1', 'X1&', 'const X1&', 'X2&', 'const X2&', 'X4', 'const X4&', 'Stranger', 'const Stranger&', 'A', 'int*', 'IL']
for v in VALS:
    n = argname(v)
    ex('conv_' + n, 'VX_CONS(I, %s) == (VX_CONS(T, %s) && VX_DA)' % (v, v), 'construction from a value of type %s exists exactly when the element type has it' % v, x20, lib=IND)
    ex('conv_alloc_' + n, 'VX_CONS(I, %s, %s) == VX_CONS(T, %s)' % (AL, v, v), 'allocator-extended construction from a value of type %s exists exactly when the element type has it' % v, x20, lib=IND)
    ex('expl_' + n, '!VX_IMPLICIT(I, %s) && !std::is_convertible<%s, I>::value' % (v, v), 'construction from a value is explicit', lib=IND)
    ex('asg_' + n, 'std::is_assignable<I&, %s>::value == (VX_CONS(T, %s) && std::is_assignable<T&, %s>::value)' % (v, v, v),
       'assignment from a value of type %s exists exactly when the element type has both construction and assignment' % v, lib=IND)
for v in ('T', 'T&', 'const T&'):
    n = argname(v)
    ex('conv14_' + n, 'VX_CONS(I, %s) == (VX_CONS(T, %s) && VX_DA)' % (v, v), 'construction from the element type exists exactly when it has it', x14, lib=IND)
    ex('conv14_alloc_' + n, 'VX_CONS(I, %s, %s) == VX_CONS(T, %s)' % (AL, v, v), 'construction from the element type exists exactly when it has it', x14, lib=IND)
for v in ('Stranger', 'A', 'int*'):
    ex('conv14_no_' + argname(v), '!VX_CONS(I, %s) && !VX_CONS(I, %s, %s)' % (v, AL, v), 'construction from an unrelated type does not exist', N(x14, lambda c, k: not k['plain'], notgreedy), lib=IND)
INPL = ['', 'T', 'const T&', 'X1', 'X1&', 'X2&', 'const X2&', 'X1, const X2&, X3&', 'X1, X2, X3', 'X4', 'IL', 'IL, X1', 'IL, X2', 'std::initializer_list<int>', 'Stranger', 'int*', 'IL, X1&', 'IL, const X1', 'X1&, const X2&, X3&', 'X1, const X2&, X3', 'X4&', 'const X4']
for i, a in enumerate(INPL):
    ca = ', ' + a if a else ''
    for nm, pre, da in (('', '', ' && VX_DA'), ('alloc_', AL + ', ', '')):
        t = '(VX_CONS(T%s)%s)' % (ca, da)
        ex('ip_%s%d' % (nm, i), 'VX_CONS(I, %sVX_IPTAG%s) == %s' % (pre, ca, t),
           'in-place construction from (%s) exists exactly when the element type has it' % a, lib=IND)
        ex('ipexpl_%s%d' % (nm, i), '!VX_IMPLICIT(I, %sVX_IPTAG%s)' % (pre, ca), 'in-place construction from (%s) is explicit' % a, x20, lib=IND)
        for v in ('T', 'U', 'M', 'Stranger'):
            ok = lambda c, k, v=v: v not in 'UM' or not k['final']
            derived = '(VX_CONS(%s%s) && std::is_base_of<T, %s>::value && std::is_copy_constructible<%s>::value%s)' % (v, ca, v, v, da)
            ex('ip_%s%s_%d' % (nm, v, i), 'VX_CONS(I, %sVX_IPTTAG(%s)%s) == %s' % (pre, v, ca, derived),
               'in-place construction of %s from (%s) exists exactly when %s is a copyable derived type constructible from it' % (v, a, v), ok, lib=POL)
            if i in (0, 1, 7, 10):
                ex('ipexpl_%s%s_%d' % (nm, v, i), '!VX_IMPLICIT(I, %sVX_IPTTAG(%s)%s)' % (pre, v, ca), 'in-place construction is explicit', N(x20, ok), lib=POL)
for v in ['T', 'T&', 'const T&', 'U', 'U&', 'const U&', 'M', 'const M&', 'X1', 'X4', 'const X4&', 'Stranger', 'A', 'int*', 'IL', 'T*']:
    n = argname(v).replace('*', 'p')
    ok = lambda c, k, v=v: not ('U' in v or 'M' in v) or not k['final']
    derived = '(VX_CONS(VX_UNCVREF(%s), %s) && std::is_base_of<T, VX_UNCVREF(%s)>::value && std::is_copy_constructible<VX_UNCVREF(%s)>::value' % (v, v, v, v)
    ex('pconv_' + n, 'VX_CONS(I, %s) == %s && VX_DA)' % (v, derived), 'construction from a value exists exactly for copyable types derived from the element type', ok, lib=POL)
    ex('pconv_alloc_' + n, 'VX_CONS(I, %s, %s) == %s)' % (AL, v, derived), 'allocator-extended construction from a value exists exactly for copyable types derived from the element type', ok, lib=POL)
    ex('pexpl_' + n, '!VX_IMPLICIT(I, %s) && !std::is_convertible<%s, I>::value' % (v, v), 'construction from a value is explicit', ok, lib=POL)
    ex('pasg_' + n, '!std::is_assignable<I&, %s>::value' % v, 'there is no assignment from a value', ok, lib=POL)
# a braced list initialises the element type where the documentation gives the parameter that default
for i, a in enumerate(('X1, const X2&, X3&', 'IL, X1', 'X1, X2, X3', 'X1, const X2&, X3&, X4')):
    g = {'ind': '(VX_IMPLICIT(T, %s) && VX_CONS(T, T)%s)', 'pol': '(VX_IMPLICIT(T, %s) && VX_CONS(T, T) && std::is_copy_constructible<T>::value%s)'}
    for lib, L in (('ind', IND), ('pol', POL)):
        ex('br_%s%d' % (lib, i), 'VX_BRACED(I, %s) == %s' % (a, g[lib] % (a, ' && VX_DA')), 'construction from the braced list {%s} exists exactly when it initialises the element type' % a, notgreedy, lib=L)
        ex('br_%s_alloc%d' % (lib, i), 'VX_BRACED_ALLOC(I, %s) == %s' % (a, g[lib] % (a, '')), 'allocator-extended construction from the braced list {%s} exists exactly when it initialises the element type' % a, notgreedy, lib=L)
    ex('br_asg%d' % i, 'VX_BRACED_ASG(I, %s) == %s' % (a, g['ind'] % (a, ' && std::is_assignable<T&, T>::value')), 'assignment from the braced list {%s} exists exactly when it initialises the element type' % a, notgreedy, lib=IND)
NCD = 'struct V : T { using T::T; V(V&&) = default; V(const V&) = delete; }; '
PRV = 'struct V : private T { using T::T; }; '
nofinal = lambda c, k: not k['final']
for nm, txt, what, cond in (('nocopy', NCD, 'a derived type that cannot be copied', nofinal), ('private', PRV, 'a type derived privately', N(nofinal, x20))):
    op('ty_ex_p%s' % nm, 'type_exists', '', txt + 'return !VX_CONS(I, V) && !VX_CONS(I, %s, V) && !VX_CONS(I, VX_IPTTAG(V), X1) && !VX_CONS(I, %s, VX_IPTTAG(V), X1) && !VX_CONS(I, VX_IPTTAG(V), IL) && !VX_CONS(I, %s, VX_IPTTAG(V), IL);' % (AL, AL, AL),
       [], fact('there is no construction of ' + what), cond, ret='bool', lib=POL)
op('ty_ex_pnomove', 'type_exists', '', 'struct V : T { using T::T; V(const V&); V(V&&) = delete; }; return VX_CONS(I, const V&) == VX_DA && VX_CONS(I, %s, const V&) && !VX_CONS(I, V) && !VX_CONS(I, %s, V);' % (AL, AL),
   [], fact('a derived type that can be copied but not moved is accepted as an lvalue only'), N(nofinal, conc), ret='bool', lib=POL)
op('ty_ex_pconst', 'type_exists', '', 'return !VX_CONS(I, VX_IPTTAG(const T)) && !VX_CONS(I, %s, VX_IPTTAG(const T)) && !VX_CONS(I, VX_IPTTAG(T&), T&) && !VX_CONS(I, VX_IPTTAG(const T), IL) && !VX_CONS(I, %s, VX_IPTTAG(const T), IL);' % (AL, AL),
   [], fact('the type constructed in place is not qualified'), x20, ret='bool', lib=POL)
ex('default', 'std::is_default_constructible<I>::value == VX_DA', 'default construction exists exactly when the allocator has it')
op('ty_ex_defagg', 'type_exists', '', 'struct M { explicit M() {} }; struct V { M m; }; using B = typename std::allocator_traits<A>::template rebind_alloc<V>; using J = VX_TMPL<V, B>; auto f = [](const B& b) { J j(std::allocator_arg, b); }; (void)f; return std::is_default_constructible<V>::value;',
   [], fact('every default constructible element type can be default constructed, also if not from an empty braced list'), None, ret='bool')
ex('default_expl', '!VX_IMPLICIT(I)', 'default construction is explicit', N(kdef, x20))
ex('default_alloc', 'VX_CONS(I, %s)' % AL, 'construction from an allocator exists')
ex('default_alloc_expl', '!VX_IMPLICIT(I, %s)' % AL, 'construction from an allocator is explicit', N(kdef, x20))
ex('copy', 'VX_CONS(I, const I&) && VX_CONS(I, I&) && VX_IMPLICIT(I, const I&) && std::is_convertible<const I&, I>::value && VX_CONS(I, %s, const I&)' % AL, 'copy construction exists and is implicit, whatever the element type')
ex('move', 'VX_CONS(I, I) && VX_IMPLICIT(I, I) && std::is_convertible<I, I>::value && VX_CONS(I, %s, I)' % AL, 'move construction exists and is implicit')
ex('assign', 'std::is_assignable<I&, const I&>::value && std::is_assignable<I&, I&>::value', 'copy assignment exists, whatever the element type')
ex('massign', 'std::is_assignable<I&, I>::value && !std::is_assignable<const I&, I>::value', 'move assignment exists, for non-const targets')
ex('alloc_only', '!VX_CONS(I, std::allocator_arg_t) && !VX_CONS(I, std::allocator_arg_t, Stranger)', 'an allocator tag needs an allocator', notgreedy)
ex('hash', 'std::is_default_constructible<std::hash<I>>::value == std::is_default_constructible<std::hash<T>>::value', 'hashing exists exactly when the element type has it', x20, lib=IND)
x17 = lambda c, k: c['std'] >= 17
kmv = lambda c, k: k['copy'] and not k['expl']
ex('ctad', 'std::is_same<decltype(xyz::indirect(%s)), xyz::indirect<T>>::value && std::is_same<decltype(xyz::indirect(%s)), xyz::indirect<T>>::value' % (dv('T'), dv('const T&')),
   'the template argument is deduced from a value', N(x17, kmv, notgreedy), lib=IND)
ex('ctad_alloc', 'std::is_same<decltype(xyz::indirect(std::allocator_arg, %s, %s)), I>::value && std::is_same<decltype(xyz::indirect(std::allocator_arg, %s, %s)), I>::value' % (
    dv('typename std::conditional<std::is_convertible<typename std::allocator_traits<A>::template rebind_alloc<Stranger>, A>::value, typename std::allocator_traits<A>::template rebind_alloc<Stranger>, A>::type'), dv('T'), dv('A&'), dv('const T&')),
   'the template arguments are deduced from an allocator and a value', N(x17, kmv, notgreedy), lib=IND)
ex('noconv', '!std::is_convertible<I, T>::value && !std::is_convertible<const I&, const T&>::value && !VX_CONS(bool, I) && !VX_CONS(T*, I)', 'a handle does not convert to its element, a pointer or bool', lambda c, k: notgreedy(c, k) and c['kind'] != 'Amp')

# ---- incomplete element types -------------------------------------------------------------
# Inc is never completed: every use below has to be answered without looking inside it
def inc(name, expr, what, need=None, pre='', **k):
    op('ty_inc_' + name, 'type_incomplete', '', 'struct Inc; using B = typename std::allocator_traits<A>::template rebind_alloc<Inc>; using J = VX_TMPL<Inc, B>; %sreturn %s;' % (pre, expr),
       [], fact('with an incomplete element type: ' + what), need, ret='bool', **k)


IC, IM, NM, ICA, IMA, NMA, ND = ('std::is_copy_constructible<%s>::value', 'std::is_move_constructible<%s>::value', 'std::is_nothrow_move_constructible<%s>::value',
                                 'std::is_copy_assignable<%s>::value', 'std::is_move_assignable<%s>::value', 'std::is_nothrow_move_assignable<%s>::value', 'std::is_nothrow_destructible<%s>::value')
inc('size', 'sizeof(J) == sizeof(I) && alignof(J) == alignof(I)', 'the class is complete, with the same size and alignment')
for nm, q, what in (('copy', IC, 'copy constructible'), ('move', IM, 'move constructible'), ('nxmove', NM, 'non-throwing move constructible'),
                    ('casg', ICA, 'copy assignable'), ('masg', IMA, 'move assignable'), ('nxdtor', ND, 'non-throwing destructible')):
    inc(nm, q % 'J', what)
    inc('any_' + nm, q % 'I', 'the same answer as for every complete type: ' + what)
    inc('mem_' + nm, q % 'H', 'a class with such a member is ' + what, pre='struct H { J j; long n; }; ')
    inc('pair_' + nm, q % 'H', 'a class with it in a pair and a tuple is ' + what, pre='using P2 = std::pair<J, int>; using T2 = std::tuple<int, J>; struct H { P2 p; T2 t; }; ')
    inc('base_' + nm, q % 'H', 'a class with such a base is ' + what, pre='struct H : J { long n; }; ')
    inc('rec_' + nm, q % 'H', 'a class that contains itself through such a member is ' + what,
        pre='struct H { VX_TMPL<H, typename std::allocator_traits<A>::template rebind_alloc<H>> next; long n; }; ')
nma = '(std::allocator_traits<B>::propagate_on_container_move_assignment::value || std::allocator_traits<B>::is_always_equal::value)'
inc('nxmasg', '%s == %s' % (NMA % 'J', nma), 'non-throwing move assignable exactly as for every complete type')
inc('default', 'std::is_default_constructible<J>::value == VX_DA', 'default constructible exactly when the allocator is')
inc('copy_alloc', 'VX_CONS(J, std::allocator_arg_t, const B&, const J&) && VX_CONS(J, std::allocator_arg_t, const B&, J&)', 'copy constructible with an allocator')
inc('move_alloc', 'VX_CONS(J, std::allocator_arg_t, const B&, J)', 'move constructible with an allocator')
inc('mut', 'VX_CONS(J, J&) && VX_CONS(J, const J) && std::is_assignable<J&, J&>::value && std::is_assignable<J&, const J>::value && VX_CONS(J, std::allocator_arg_t, const B&, const J)', 'copied from mutable and const rvalue objects')
inc('implicit', 'std::is_convertible<const J&, J>::value && std::is_convertible<J, J>::value && VX_IMPLICIT(J, const J&) && VX_IMPLICIT(J, J)', 'copies and moves are implicit')
inc('unrelated', '!VX_CONS(J, int*) && !std::is_assignable<J&, std::nullptr_t>::value && !std::is_convertible<J, int*>::value', 'not constructible from unrelated things', lib=POL)
nsw = '(std::allocator_traits<B>::propagate_on_container_swap::value || std::allocator_traits<B>::is_always_equal::value)'
inc('swap', 'noexcept(%s.swap(%s)) == %s && noexcept(swap(%s, %s)) == %s' % (dv('J&'), dv('J&'), nsw, dv('J&'), dv('J&'), nsw), 'swappable')
inc('access', ' && '.join(same(a, b) for a, b in (('*' + dv('J&'), 'Inc&'), ('*' + dv('const J&'), 'const Inc&'), (dv('J&') + '.operator->()', 'typename std::allocator_traits<B>::pointer'),
                                                 (dv('const J&') + '.operator->()', 'typename std::allocator_traits<B>::const_pointer'))), 'accessible')
inc('observe', 'noexcept(%s.valueless_after_move()) && %s && std::is_same<typename J::value_type, Inc>::value && std::is_same<typename J::allocator_type, B>::value' % (
    dv('const J&'), same(dv('const J&') + '.get_allocator()', 'B')), 'observable')
BEFORE = ' && '.join(q % 'J' for q in (IC, IM, NM, ICA, IMA, ND)) + ' && std::is_convertible<const J&, J>::value && noexcept(swap(%s, %s)) == %s && VX_CONS(J, J&) && VX_CONS(J, const J) && std::is_assignable<J&, J&>::value && VX_CONS(J, std::allocator_arg_t, const B&, J&)' % (dv('J&'), dv('J&'), nsw)
LATER = 'const bool before = %s; struct Inc { int n; Inc(int = 0) {} }; ' % BEFORE
inc('later', 'before && VX_CONS(J, std::allocator_arg_t, const B&, Inc) && VX_CONS(J, std::allocator_arg_t, const B&, const Inc&) && VX_CONS(J, Inc) == VX_DA && VX_CONS(J, const Inc&) == VX_DA && VX_CONS(J, Inc&) == VX_DA && sizeof(J) == sizeof(I)',
    'once the type is complete it can be constructed from values', pre=LATER)
inc('later_ip', 'before && VX_CONS(J, std::allocator_arg_t, const B&, VX_IPTAG, int) && VX_CONS(J, VX_IPTAG, int) == VX_DA && VX_CONS(J, VX_IPTAG) == VX_DA && std::is_assignable<J&, Inc>::value && std::is_assignable<J&, const Inc&>::value',
    'once the type is complete it can be constructed in place and assigned from values', pre=LATER, lib=IND)
inc('later_pip', 'before && VX_CONS(J, std::allocator_arg_t, const B&, VX_IPTTAG(Inc), int) && VX_CONS(J, VX_IPTTAG(Inc), int) == VX_DA && VX_CONS(J, std::allocator_arg_t, const B&, VX_IPTTAG(Der), int) && VX_CONS(J, std::allocator_arg_t, const B&, Der)',
    'once the type is complete it can be constructed in place', pre=LATER + 'struct Der : Inc { Der(int) {} }; ', lib=POL)

# ---- constant evaluation ------------------------------------------------------------------
# the drivers of harness/cx.h run an operation from every combination of operand states and allocator relations;
# the front end evaluates them, and rejects whatever a constant expression may not do
def cx(name, call, what, lib=None):
    op('ty_cx_' + name, 'type_consteval', '', 'using namespace cx; constexpr bool r = %s; return r;' % call, [], fact('can be evaluated at compile time, with the documented result: ' + what),
       lambda c, k: c.get('cx'), ret='bool', lib=lib)


for e, lib in (('V', None), ('VV', None), ('MO', IND)):
    def each(nm, what, args='%s', lib=lib, e=e):
        cx('%s_%s' % (nm, e), '%s<J<%s>, %s>()' % (nm, e, args % ((e,) * args.count('%s'))), '%s, element %s' % (what, e), lib)
    each('ctors', 'default and in-place construction')
    each('value_ctors', 'construction from a value')
    each('move_ctor', 'move construction')
    each('move_assign', 'move assignment', '%s, %s')
    each('swaps', 'swap', '%s, %s')
    each('access', 'access and observers')
    if e != 'MO':
        each('copy_ctor', 'copy construction')
        each('copy_assign', 'copy assignment', '%s, %s')
    if e != 'VV':
        each('assign_value', 'assignment from a value', lib=IND)
    if e == 'V':
        each('hashes', 'hash', lib=IND)
        cx('compares_V', 'compares<J<V>, J<V>, V>()', 'comparisons', IND)
        cx('compares2_V', 'compares<J<V>, VX_TMPL<V>, V>()', 'comparisons with a handle that uses another allocator', IND)
    if e != 'MO':
        for d, f in (('Der', 'Off'), ('Off', 'Der')):
            for nm, what in (('ctors', 'construction of a derived object'), ('value_ctors', 'construction from a derived object'), ('copy_ctor', 'copy construction, derived object'),
                             ('move_ctor', 'move construction, derived object'), ('access', 'access, derived object')):
                cx('%s_%s_%s' % (nm, e, d), '%s<J<%s>, %s<%s>>()' % (nm, e, d, e), '%s, base %s' % (what, e), POL)
            for nm, what in (('copy_assign', 'copy assignment'), ('move_assign', 'move assignment'), ('swaps', 'swap')):
                cx('%s_%s_%s' % (nm, e, d), '%s<J<%s>, %s<%s>, %s<%s>>()' % (nm, e, d, e, f, e), '%s between derived objects, base %s' % (what, e), POL)

CATS = ['ctor', 'copy_ctor', 'move_ctor', 'dtor', 'copy_assign', 'move_assign', 'conv_assign', 'swap', 'access', 'compare', 'hash']
BY_NAME = {o.name: o for o in OPS}

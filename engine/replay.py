"""Replay of a failed obligation against the real code.

The path on which an obligation failed fixes what every external function does
(which calls throw, what comparisons and allocators answer) and the state the
operands start in.  The same harness text is compiled natively, with the
sanitizers, against the headers of /repo; the external functions are answered
from that script, and the run is compared with what the verifier predicted.
"""
import json
import os
import re
import subprocess
import tempfile
import z3
from .exec import Ptr, FnPtr, UNDEF, is_sym, tobool
from .world import STDNEW, VPT, dem, V
from . import harness as H

CLANG = H.CLANG


def modelvals(r, extra):
    s = z3.Solver()
    s.set('timeout', 20000)
    for p in r.ctx.pc:
        s.add(p)
    if extra is not None:
        s.add(extra)
    if s.check() != z3.sat:
        return None
    return s.model()


def describe(r, extra, abort, msg):
    """a JSON-able description of the path"""
    m = modelvals(r, extra)
    if m is None:
        return None
    objs = {}

    def ev(v):
        if is_sym(v):
            if z3.is_bool(v):
                return int(z3.is_true(m.eval(v, model_completion=True)))
            if v.sort() == V:
                return None
            return m.eval(v, model_completion=True).as_long()
        return v

    def d(v):
        if v is UNDEF or v is None or v is STDNEW:
            return None
        if isinstance(v, Ptr):
            if v.o.name.startswith('vtable of '):
                return ['g', 'vxvt_' + v.o.name[10:], v.off]
            if v.o.kind == 'global':
                return ['g', v.o.name, v.off]
            if v.o.uid in objs:
                return ['p', v.o.uid, v.off]
            return None
        if isinstance(v, FnPtr):
            return ['g', v.name, 0]
        if isinstance(v, (tuple, list)):
            return None
        x = ev(v)
        return None if x is None else ['i', int(x) & (2**64 - 1)]

    init = []
    for o, cells, insts in r.snap:
        objs[o.uid] = o
    for o, cells, insts in r.snap:
        init.append(dict(uid=o.uid, name=o.name, size=o.size, align=max(o.align, 16),
                         cells=[[off, sz, d(v)] for off, (sz, v) in sorted(cells.items())]
                         + [[off, 8, ['g', 'vxvt_' + c, VPT]] for off, c in insts if c in r.mod.cl.poly],
                         insts=insts))
    script = []
    for name, args, how, ret in r.w.log:
        if isinstance(ret, Ptr) and ret.o.uid not in objs and ret.o.kind == 'heap':
            objs[ret.o.uid] = ret.o
            rd = ['new', ret.o.uid, ret.o.size, max(ret.o.align, 16)]
        else:
            rd = d(ret)
        e = r.mod.cl.ext.get(name)
        vt = e[1] if e and e[0] == 'ctor' and how == 'ret' and e[1] in r.mod.cl.poly else None
        script.append(dict(fn=name, show=dem(name), args=[d(a) for a in args[:4]], how=how, ret=rd, vt=vt))
    out = None
    if r.out is not None:
        out = ['exc'] if r.out[0] == 'exc' else ['ret', d(r.out[1])]
    post = []
    if not abort:
        for h in r.live:
            p = r.post.get(h)
            if p is not None:
                post.append(dict(h=d(r.h[h]), hd=h == 'other' and any(x.endswith(':HD') for x in r.op.roles),
                                 vl=bool(p.vl), addr=d(p.addr) if not p.vl else None, alloc=d(p.alloc)))
    pend = None
    if abort and r.w.pending:
        pend = dict(fn=r.w.pending[0], show=dem(r.w.pending[0]), args=[d(a) for a in r.w.pending[1][:4]])
    vals = {str(k): str(m[k]) for k in m.decls() if m[k] is not None and k.arity() == 0}
    return dict(op=r.op.name, ret=r.op.ret, nargs=len(r.callargs), args=[d(a) for a in r.callargs],
                init=init, script=script, out=out, post=post, pending=pend, abort=abort, msg=msg, values=vals, vbase={c: r.mod.cl.vbase.get(c, 0) for c in r.mod.cl.poly})


RUNTIME = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <exception>
#include <unistd.h>
#include <new>
typedef uint64_t u64;
struct VxThrown { int n; };
struct D { int k; int uid; u64 v; };          // 0 none 1 int 2 pointer(obj,off) 3 symbol 4 new object
struct Call { const char* fn; const char* show; D a[4]; int throws; D ret; const char* vt; };
struct Cell { int off; int size; D v; };
struct ObjD { int uid; const char* name; u64 size, align; int ncells; const Cell* cells; };
@TABLES@
static char* addr_of[4096];
static u64 size_of_[4096];
static volatile int active = 0;
static unsigned pos = 0;
static void out(const char* s) { (void)!write(1, s, strlen(s)); }
#define SAY(...) do { char b_[1200]; snprintf(b_, sizeof b_, __VA_ARGS__); out(b_); } while (0)
static void where(u64 p) {
  for (int i = 0; i < 4096; i++) if (addr_of[i] && p >= (u64)addr_of[i] && p < (u64)addr_of[i] + size_of_[i]) {
    SAY("obj%d+%llu", i, (unsigned long long)(p - (u64)addr_of[i])); return; }
  SAY("%llu", (unsigned long long)p);
}
static u64 val(const D& d, bool* known) {
  *known = true;
  if (d.k == 1) return d.v;
  if (d.k == 2) { if (!addr_of[d.uid]) { *known = false; return 0; } return (u64)addr_of[d.uid] + d.v; }
  if (d.k == 3) return symtab[d.uid] + d.v;
  *known = false; return 0;
}
static void finish(int c) { active = 0; fflush(0); _exit(c); }
enum { CONFIRMED = 10, DIVERGED = 11 };
static void confirm(const char* how) { SAY("CONFIRMED: %s\n", how); finish(CONFIRMED); }
static void diverge(const char* how) { SAY("NOT CONFIRMED: %s\n", how); finish(DIVERGED); }
static bool same(const D* a, const u64* g, bool bits) {
  for (int i = 0; i < 4; i++) { bool k; u64 v = val(a[i], &k); if (k && v != g[i] && !(bits && (v & 0xff) == (g[i] & 0xff))) return false; }
  return true;
}
extern "C" u64 vx_dispatch(u64 a, u64 b, u64 c, u64 d, int idx) {
  u64 g[4] = {a, b, c, d};
  active = 0;
  SAY("  call %-60s (", shownames[idx]); where(a); out(", "); where(b); out(", "); where(c); out(")");
  if (pos >= nscript) {
    out("\n");
    if (has_pending && !strcmp(names[idx], pending.fn) && same(pending.a, g, false)) confirm("the run performs the offending call");
    diverge("unexpected further call of an external function");
  }
  const Call& s = script[pos++];
  if (strcmp(names[idx], s.fn) || !same(s.a, g, false)) { out("\n"); diverge("a different external call was expected"); }
  if (s.throws) { out(" throws\n"); active = 1; throw VxThrown{(int)pos}; }
  u64 r = 0;
  if (s.vt) *(u64*)a = (u64)s.vt + @VPT@;
  if (s.ret.k == 4) {
    void* p = nullptr;
    if (posix_memalign(&p, 64, s.ret.v ? s.ret.v : 1)) abort();
    memset(p, 0xa5, s.ret.v);
    addr_of[s.ret.uid] = (char*)p; size_of_[s.ret.uid] = s.ret.v; r = (u64)p;
    SAY(" = obj%d\n", s.ret.uid);
  } else { bool k; r = val(s.ret, &k); out("\n"); }
  if (pos < nscript && script[pos].throws == 2) {   // the object contained a handle: its destructor destroys that handle
    const Call& k = script[pos++];
    bool kn; void* h = (void*)val(k.a[0], &kn);
    SAY("  (the destroyed object contains obj%d, which is destroyed with it)\n", k.a[0].uid);
    active = 1; ob_dtor(h); active = 0;
    free(h);
  }
  if (isdealloc[idx]) free((void*)(isdealloc[idx] == 1 ? b : a));
  active = 1;
  return r;
}
void* operator new(size_t n) {
  if (active && idx_new >= 0) return (void*)vx_dispatch(n, 0, 0, 0, idx_new);
  void* p = malloc(n); if (!p) abort(); return p;
}
void operator delete(void* p) noexcept { if (active && idx_del >= 0) { vx_dispatch((u64)p, 0, 0, 0, idx_del); return; } free(p); }
void operator delete(void* p, size_t n) noexcept { if (active && idx_del2 >= 0) { vx_dispatch((u64)p, n, 0, 0, idx_del2); return; } free(p); }
@EXTRA@
extern "C" void __asan_on_error() { if (@ABORTMEM@ && pos >= nscript) { out("CONFIRMED: AddressSanitizer reports the access\n"); finish(CONFIRMED); } }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:handle_abort=0:detect_odr_violation=0:alloc_dealloc_mismatch=0"; }
extern "C" void __ubsan_on_report() { if (@ABORTUB@ && pos >= nscript) { out("CONFIRMED: UndefinedBehaviorSanitizer reports it\n"); finish(CONFIRMED); } }
#include <csignal>
static void on_abrt(int) { if (@ABORTASSERT@ && pos >= nscript) confirm("the process aborts (assertion)"); diverge("abort"); }
static void on_segv(int) { if (@ABORTMEM@ && pos >= nscript) confirm("invalid memory access"); diverge("crash"); }
static void on_term() { if (@ABORTTERM@ && pos >= nscript) confirm("std::terminate is called"); diverge("terminate"); }
int main() {
  signal(SIGABRT, on_abrt); signal(SIGSEGV, on_segv); signal(SIGILL, on_segv);
  std::set_terminate(on_term);
  for (unsigned i = 0; i < nobjs; i++) {
    void* p = nullptr; if (posix_memalign(&p, objs[i].align < 64 ? 64 : objs[i].align, objs[i].size ? objs[i].size : 1)) abort();
    memset(p, 0xa5, objs[i].size); addr_of[objs[i].uid] = (char*)p; size_of_[objs[i].uid] = objs[i].size;
    SAY("obj%d = %s (%llu bytes)\n", objs[i].uid, objs[i].name, (unsigned long long)objs[i].size);
  }
  for (unsigned i = 0; i < nobjs; i++)
    for (int j = 0; j < objs[i].ncells; j++) { bool k; u64 v = val(objs[i].cells[j].v, &k); if (k) memcpy(addr_of[objs[i].uid] + objs[i].cells[j].off, &v, objs[i].cells[j].size); }
  SAY("%s\n", "@OP@");
  bool threw = false; u64 r = 0;
  active = 1;
  try { @CALL@ active = 0; } catch (const VxThrown&) { active = 0; threw = true; }
  SAY("%s\n", threw ? "  -> exception" : "  -> returns");
  if (@ABORT@) { if (@SOFT@ && pos >= nscript) confirm("the run follows the predicted path to the failing point (the defect itself has no visible effect here)"); diverge("the operation completed"); }
  if (pos != nscript) diverge("fewer external calls than predicted");
  if (threw != @THREW@) diverge("different outcome");
  @POST@
  confirm("the run matches, call by call, the path on which the obligation fails");
}
'''


def cd(d, syms):
    if d is None:
        return '{0,0,0}'
    if d[0] == 'i':
        return '{1,0,%dull}' % d[1]
    if d[0] == 'p':
        return '{2,%d,%dull}' % (d[1], d[2] & (2**64 - 1))
    if d[0] == 'g':
        if d[1] not in syms:
            syms.append(d[1])
        return '{3,%d,%dull}' % (syms.index(d[1]), d[2])
    if d[0] == 'new':
        return '{4,%d,%dull}' % (d[1], d[2])


def cs(s):
    return json.dumps(s)


def native(desc, text, cfg, workdir, externs):
    """compile and run; returns (confirmed, output)"""
    hs = os.path.join(workdir, 'harness.cc')
    with open(hs, 'w') as f:
        f.write(text)
    san = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,function', '-fno-sanitize-recover=undefined'] if cfg.get('san', True) else []
    base = [CLANG, '-O0', '-g', '-fno-omit-frame-pointer'] + san
    r = subprocess.run(base + ['-c', hs, '-o', os.path.join(workdir, 'h.o')] + H.flags_for(cfg), capture_output=True, text=True)
    if r.returncode:
        return False, 'harness does not compile natively\n' + r.stderr[-2000:]
    und = set()
    for line in subprocess.run(['nm', '-u', os.path.join(workdir, 'h.o')], capture_output=True, text=True).stdout.split('\n'):
        p = line.split()
        if len(p) >= 2:
            und.add(p[-1])
    fns = sorted(x for x in und if x in externs)
    extra, asm = [], []
    for x in sorted(und):
        m = re.match(r'_ZT([VI])(\d+)(\w+)$', x)
        if m and len(m.group(3)) == int(m.group(2)):
            c = m.group(3)
            if m.group(1) == 'V':
                d1, d0 = '_ZN%d%sD1Ev' % (len(c), c), '_ZN%d%sD0Ev' % (len(c), c)
                for z in (d1, d0):
                    if z not in fns:
                        fns.append(z)
                asm.append('.data\n.globl %s\n.balign 8\n%s: .quad 0, 0, %s, %s\n.text' % (x, x, d1, d0))
            else:
                asm.append('.data\n.globl %s\n.balign 8\n%s: .quad 0, 0, 0, 0, 0, 0, 0\n.text' % (x, x))
    for z in ('_Znwm', '_ZdlPv', '_ZdlPvm'):
        if z not in fns and any(s['fn'] == z for s in desc['script'] + ([desc['pending']] if desc['pending'] else [])):
            fns.append(z)
    for c, off in sorted(desc.get('vbase', {}).items()):
        # a stand-in for the virtual table of the opaque class
        d1, d0 = '_ZN%d%sD1Ev' % (len(c), c), '_ZN%d%sD0Ev' % (len(c), c)
        for z in (d1, d0):
            if z not in fns:
                fns.append(z)
        asm.append('.data\n.globl vxvt_%s\n.balign 16\nvxvt_%s: .zero %d\n.quad %d\n.zero 16\n.quad %s, %s\n.zero 64\n.text' % (c, c, VPT - 24, off, d1, d0))
        extra.append('extern "C" char vxvt_%s[];' % c)
    syms = []
    T = list(extra)
    T.append('static const char* names[] = {%s0};' % ''.join(cs(f) + "," for f in fns))
    T.append('static const char* shownames[] = {%s0};' % ''.join(cs(dem(f)) + "," for f in fns))
    T.append('static const int isdealloc[] = {%s0};' % ''.join(
        ('1' if f == 'vx_deallocate' else '2' if f.startswith('_ZdlPv') else '0') + ',' for f in fns))
    for k, z in (('idx_new', '_Znwm'), ('idx_del', '_ZdlPv'), ('idx_del2', '_ZdlPvm')):
        T.append('static const int %s = %d;' % (k, fns.index(z) if z in fns else -1))
    for i, f in enumerate(fns):
        if f.startswith(('_Znw', '_ZdlPv')):
            continue
        asm.append('.globl %s\n.type %s,@function\n%s: movl $%d, %%r8d\n jmp vx_dispatch' % (f, f, f, i))
    body = []
    for o in desc['init']:
        body.append('static const Cell cells_%d[] = {%s{0,0,{0,0,0}}};' % (
            o['uid'], ''.join('{%d,%d,%s},' % (c[0], c[1], cd(c[2], syms)) for c in o['cells'])))
    body.append('static const ObjD objs[] = {%s};\nstatic const unsigned nobjs = %d;' % (','.join(
        '{%d,%s,%dull,%dull,%d,cells_%d}' % (o['uid'], cs(o['name']), o['size'], o['align'], len(o['cells']), o['uid'])
        for o in desc['init']) or '{}', len(desc['init'])))

    def call(s):
        a = [cd(x, syms) for x in s['args']] + ['{0,0,0}'] * (4 - len(s['args']))
        return '{%s,%s,{%s},%d,%s,%s}' % (cs(s['fn']), cs(s['show']), ','.join(a), {'throw': 1, 'kill': 2}.get(s.get('how'), 0), cd(s.get('ret'), syms),
                                          'vxvt_' + s['vt'] if s.get('vt') else '0')
    body.append('static const Call script[] = {%s};\nstatic const unsigned nscript = %d;' % (
        ','.join(call(s) for s in desc['script']) or '{}', len(desc['script'])))
    body.append('static const bool has_pending = %s;\nstatic const Call pending = %s;' % (
        'true' if desc['pending'] else 'false', call(desc['pending']) if desc['pending'] else '{}'))
    decl = '#define main_args\n' + ''.join('extern "C" char sym_%d[] asm(%s);\n' % (i, cs(s)) for i, s in enumerate(syms))
    decl += 'static const u64 symtab[] = {%s0};\n' % ''.join('(u64)sym_%d,' % i for i in range(len(syms)))
    rt = {'void': 'void', 'bool': 'bool', 'int': 'int', 'long': 'long', 'unsigned long': 'unsigned long'}.get(desc['ret'], 'void*')
    decl += 'extern "C" %s %s(%s);\n' % (rt, desc['op'], ','.join(['void*'] * desc['nargs']))
    decl += 'extern "C" bool ob_valueless(void*); extern "C" void* ob_deref(void*); extern "C" long ob_alloc_id(void*); extern "C" void ob_dtor(void*);\n'
    hd = any(p['hd'] for p in desc['post'])
    if hd:
        decl += 'extern "C" bool obD_valueless(void*); extern "C" void* obD_deref(void*); extern "C" long obD_alloc_id(void*);\n'
    args = ','.join('addr_of[%d]+%d' % (a[1], a[2]) if a else '0' for a in desc['args'])
    c = '%s(%s);' % (desc['op'], args)
    if rt != 'void':
        c = 'r = (u64)' + c
    post = []
    if desc['out'] and desc['out'][0] == 'ret' and desc['out'][1] and rt != 'void':
        post.append('{ D e = %s; bool k; u64 v = val(e, &k); SAY("  result %%llu, predicted %%llu\\n", (unsigned long long)r, (unsigned long long)v); if (k && %s) diverge("different result"); }' % (
            cd(desc['out'][1], syms), '(uint32_t)v != (uint32_t)r' if rt == 'int' else '(v & 1) != (r & 1)' if rt == 'bool' else 'v != r'))
    for p in desc['post']:
        px = 'obD_' if p['hd'] else 'ob_'
        h = 'addr_of[%d]+%d' % (p['h'][1], p['h'][2])
        post.append('{ bool v = %svalueless(%s); SAY("  obj%d: %%s\\n", v ? "valueless" : "owns a value"); if (v != %s) diverge("valueless state differs from the prediction");' % (
            px, h, p['h'][1], 'true' if p['vl'] else 'false'))
        if p['addr']:
            post.append(' { D e = %s; bool k; u64 x = val(e, &k); if (k && x != (u64)%sderef(%s)) diverge("owned object differs from the prediction"); }' % (cd(p['addr'], syms), px, h))
        if p['alloc']:
            post.append(' { D e = %s; bool k; u64 x = val(e, &k); u64 g = (u64)%salloc_id(%s); SAY("  obj%d: allocator %%llu\\n", (unsigned long long)g); if (k && x != g) diverge("allocator differs from the prediction"); }' % (cd(p['alloc'], syms), px, h, p['h'][1]))
        post.append('}')
    b = lambda x: '1' if x else '0'
    ab = desc['abort']
    mem = ab in ('memory', 'lifetime', 'dealloc', 'ledger', 'termination', 'opaque', 'uninit')
    src = RUNTIME.replace('@TABLES@', '\n'.join(T + body)).replace('@VPT@', str(VPT)).replace('@EXTRA@', '').replace('@OP@', desc['op'])
    src = src.replace('@CALL@', c).replace('@POST@', '\n  '.join(post)).replace('@THREW@', 'true' if desc['out'] and desc['out'][0] == 'exc' else 'false')
    for k, v in (('ABORTMEM', mem or ab == 'unreachable'), ('ABORTUB', ab in ('unreachable', 'ub', 'memory', 'uninit')), ('ABORTASSERT', ab == 'abort'),
                 ('ABORTTERM', ab == 'terminate'), ('ABORT', ab), ('SOFT', ab in ('uninit', 'opaque', 'unreachable', 'ub', 'memory', 'lifetime', 'ledger', 'heap'))):
        src = src.replace('@%s@' % k, b(v))
    src = src.replace('static char* addr_of', decl + 'static char* addr_of', 1)
    rs = os.path.join(workdir, 'run.cc')
    with open(rs, 'w') as f:
        f.write(src)
    as_ = os.path.join(workdir, 'thunks.s')
    with open(as_, 'w') as f:
        f.write('.text\n' + '\n'.join(asm) + '\n.section .note.GNU-stack,"",@progbits\n')
    exe = os.path.join(workdir, 'replay')
    r = subprocess.run(base + ['-std=c++17', '-w', '-no-pie', rs, as_, os.path.join(workdir, 'h.o'), '-o', exe], capture_output=True, text=True)
    if r.returncode:
        return False, 'replay does not link\n' + r.stderr[-3000:]
    try:
        q = subprocess.run([exe], capture_output=True, text=True, timeout=60, cwd=workdir)
    except subprocess.TimeoutExpired:
        return False, 'replay timed out'
    return q.returncode == 10, q.stdout[-6000:] + (('\n' + q.stderr[-3000:]) if q.returncode != 10 else '')

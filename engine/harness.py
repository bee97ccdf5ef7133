"""Harness translation units: which types, allocators and operations the real
headers are instantiated with.  Generated text is compiled together with the
unmodified headers of /repo on every run."""
import os
import re
import subprocess
import hashlib
import tempfile
import concurrent.futures as cf

REPO = os.environ.get('VX_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(os.path.dirname(HERE), 'harness')
CLANG = '/usr/lib/llvm-18/bin/clang++'

# ---- element types ----------------------------------------------------------
# special: macro declaring the special members; attributes describe what the
# type supports, so that each operation is only asked for where the library's
# documentation allows it.
KINDS = {
    'Reg': dict(sp='VX_S_REG'),
    'NxMove': dict(sp='VX_S_NXMOVE'),
    'NxAll': dict(sp='VX_S_NXALL'),
    'NoAsg': dict(sp='VX_S_NOASG', casg=False, masg=False, asgx=False),
    'CopyOnly': dict(sp='VX_S_COPYONLY', movekind='copy'),
    'MoveOnly': dict(sp='VX_S_MOVEONLY', copy=False, casg=False, poly=False),
    'CopyAsg': dict(sp='VX_S_COPYASGONLY', masg=False, odd=True),
    'MoveAsg': dict(sp='VX_S_MOVEASGONLY', casg=False, odd=True),
    'NoMove': dict(sp='VX_S_NOMOVE', copy=False, casg=False, masg=False, mv=False, poly=False),
    'Expl': dict(sp='VX_S_EXPL', expl=True),
    'Nc': dict(sp='VX_S_NC', lkind='nccopy', clkind='cmove'),
    'Amp': dict(sp='VX_S_AMP'),
    'NoDef': dict(sp='VX_S_NODEF', default=False, poly=False),
    'OpNew': dict(sp='VX_S_OPNEW'),
    'Greedy': dict(sp='VX_S_GREEDY', lkind='tmpl(Greedy&)', asglkind='tmpl(Greedy&)'),
    'Empty': dict(sp='VX_S_REG', fields=''),
    'Over': dict(sp='VX_S_REG', align='alignas(64) '),
    'Big': dict(sp='VX_S_REG', fields='long d_[40];'),
    'Small': dict(sp='VX_S_REG', fields='char d_[3];'),
    'Fin': dict(sp='VX_S_REG', final=True),
    'Virt': dict(sp='VX_S_REG', virt=True),
    'Abs': dict(sp='VX_S_REG', virt=True, abstract=True, fields='virtual void pure() = 0; long d_[2];'),
    'VB': dict(sp='VX_S_REG', virt=True, vbase=True),
    'Triv': dict(sp='VX_S_TRIV', triv=True),
    # derived classes that differ from their base
    'MixTriv': dict(sp='VX_S_TRIV', triv=True, d=dict(sp='VX_S_REG', triv=False)),
    'MixNx': dict(sp='VX_S_NXALL', d=dict(sp='VX_S_REG')),
    'MixThrow': dict(sp='VX_S_REG', d=dict(sp='VX_S_NXALL')),
    'MixOver': dict(sp='VX_S_REG', d=dict(align='alignas(64) ')),
    'MixFin': dict(sp='VX_S_REG', d=dict(final=True)),
    'MixVirt': dict(sp='VX_S_REG', d=dict(virt=True)),
    'Cmp6': dict(sp='VX_S_REG', cmp='VX_CMP6', hash=True),
    'CmpLt': dict(sp='VX_S_REG', cmp='VX_CMPLT', min=20, hash=True),
    'Cmp3': dict(sp='VX_S_REG', cmp='VX_CMP3', min=20, hash=True),
    'PlainS': dict(plain=True, text='struct PlainS { int a; long b; PlainS& operator=(const PlainS&) = default; PlainS(const PlainS&) = default; PlainS() = default; explicit PlainS(X1&&); };'),
    'int': dict(plain=True, text=''),
}
DEF = dict(copy=True, casg=True, masg=True, asgx=True, default=True, movekind='move', lkind='copy', clkind='copy',
           asglkind=None, final=False, virt=False, plain=False, poly=True, min=14, cmp=None, hash=False, fields='long d_[2];', align='', odd=False, abstract=False, ind=True, vbase=False, triv=False, d={}, mv=True, expl=False)
for _k, _v in KINDS.items():
    for _a, _b in DEF.items():
        _v.setdefault(_a, _b)
KINDS['PlainS']['poly'] = KINDS['int']['poly'] = False
KINDS['Nc']['asglkind'] = 'nccopy'
for _k in KINDS:
    if KINDS[_k]['abstract'] or KINDS[_k]['vbase'] or KINDS[_k]['d']:
        KINDS[_k]['ind'] = False


def typedef(name, k, bases='', out=None):
    base_members = ''
    s = 'struct %s%s%s%s {\n  %s(%s)\n  %s~%s()%s;\n  VX_ARGS(%s)\n%s  %s\n};\n' % (
        k['align'], name, ' final' if k['final'] else '', bases, k['sp'], name, 'virtual ' if k['virt'] else '', name, ' = default' if k['triv'] else '',
        name, ('  VX_ASG(%s)\n' % name) if k['asgx'] else '', k['fields'])
    return s


def types_text(cfg):
    kn = cfg['kind']
    k = KINDS[kn]
    out = []
    if cfg['lib'] == 'ind':
        if k['plain']:
            out.append(k['text'] + '\n')
            out.append('#define VXT %s\nusing T = %s;\n' % (kn, kn))
            if kn != 'int':
                out.append('VX_CLASS(%s)\n' % kn)
        else:
            out.append(typedef(kn, k))
            out.append('using T = %s;\nVX_CLASS(%s)\n' % (kn, kn))
        if k['cmp']:
            out.append(typedef('D', dict(k, sp='VX_S_REG', fields='long d_[3];')) + 'VX_CLASS(D)\n')
            for a, b in ((kn, kn), (kn, 'D'), ('D', kn), ('D', 'D')):
                if k['cmp'] == 'VX_CMP3' and (a, b) == ('D', kn):
                    continue     # C++20 reverses ==/<=> for us
                out.append('%s(%s, %s)\n' % (k['cmp'], a, b))
            for c in (kn, 'D'):
                out.append('namespace std { template <> struct hash<%s> { size_t operator()(const %s&) const; }; }\n' % (c, c))
    else:
        out.append(typedef(kn, k))
        out.append('using T = %s;\nVX_CLASS(%s)\n' % (kn, kn))
        if not k['final']:
            vb = 'virtual ' if k['vbase'] else ''
            pure = 'void pure() override; ' if k['abstract'] else ''
            ku = dict(k, fields=pure + 'long u_[3];', **k['d'])
            if kn == 'Empty':
                ku['fields'] = ''
            out.append('struct Pad { long pad_; };\n')
            out.append(typedef(kn + 'U', ku, ' : ' + vb + kn))
            out.append(typedef(kn + 'M', dict(k, fields=pure + 'long m_;', **k['d']), ' : Pad, ' + vb + kn))
            for d in 'UM':
                out.append('VX_CLASS(%s%s)\n' % (kn, d))
                out.append('using %s = %s%s;\n' % (d, kn, d))
                out.append('extern "C" void* vxup_%s%s_%s(%s%s* p) { return static_cast<%s*>(p); }\n' % (kn, d, kn, kn, d, kn))
    return ''.join(out)


# ---- configurations ---------------------------------------------------------
def mkcfg(lib, hdr, std, kind, alloc='Alloc', flags=0, ndebug=False, **kw):
    c = dict(lib=lib, hdr=hdr, std=std, kind=kind, alloc=alloc, flags=flags, ndebug=ndebug)
    c['hooks'] = alloc == 'HookAlloc'
    c['empty'] = bool(flags & 32) or alloc == 'std'
    c['iae'] = bool(flags & 8) or c['empty']
    c['pocca'] = bool(flags & 1)
    c['pocma'] = bool(flags & 2) or alloc == 'std'
    c['pocs'] = bool(flags & 4)
    c['nodef'] = bool(flags & 64)
    c['cxx14'] = 'cxx14' in hdr
    c.update(kw)
    fl = ''.join(s for b, s in ((1, 'C'), (2, 'M'), (4, 'S'), (8, 'E'), (32, '0'), (64, 'N')) if flags & b)
    c['name'] = '%s/%s/c++%d/%s/%s%s%s' % ('indirect' if lib == 'ind' else 'polymorphic', hdr, std, kind, alloc,
                                         '[%s]' % fl if fl else '', '/NDEBUG' if ndebug else '')
    if kw.get('extra'):
        c['name'] += '/' + kw['extra']
    return c


def prologue(cfg):
    out = ['#include "vx.h"\n']
    out.append('#include "%s"\n' % cfg['hdr'])
    out.append(types_text(cfg))
    tmpl = 'indirect' if cfg['lib'] == 'ind' else 'polymorphic'
    if cfg['alloc'] == 'std':
        out.append('using A = std::allocator<T>;\n')
    else:
        out.append('using A = %s<T, %du>;\n' % (cfg['alloc'], cfg['flags']))
    out.append('#define VX_TMPL xyz::%s\nusing I = VX_TMPL<T, A>;\n' % tmpl)
    if cfg['lib'] == 'ind':
        out.append('#define VX_IP %s\n' % ('xyz::in_place_t{}' if cfg['cxx14'] else 'std::in_place'))
        out.append('#define VX_IPTAG %s\n' % ('xyz::in_place_t' if cfg['cxx14'] else 'std::in_place_t'))
        if KINDS[cfg['kind']]['cmp']:
            out.append('using AD = %s<D, 4u>;\nusing ID = xyz::indirect<D, AD>;\n' % ('HookAlloc' if cfg['hooks'] else 'Alloc'))
    else:
        out.append('#define VX_IPTTAG(...) %s<__VA_ARGS__>\n' % ('xyz::in_place_type_t' if cfg['cxx14'] else 'std::in_place_type_t'))
        out.append('#define VX_IPT(X) %s<X>{}\n' % ('xyz::in_place_type_t' if cfg['cxx14'] else 'std::in_place_type_t'))
    if cfg.get('cx'):
        out.append('#include "cx.h"\ntemplate <class X> using CA = %s;\ntemplate <class X> using J = VX_TMPL<X, CA<X>>;\n' % (
            'std::allocator<X>' if cfg['alloc'] == 'std' else 'cx::%s<X, %du>' % ('HookAl' if cfg['hooks'] else 'Al', cfg['flags'])))
    out.append('extern "C" const unsigned long vxsz_I[] = {sizeof(I), alignof(I), sizeof(A), alignof(A), sizeof(T), alignof(T)};\n')
    if cfg['lib'] == 'ind' and KINDS[cfg['kind']]['cmp']:
        out.append(OBSERVERS_D)
    return ''.join(out)


OBSERVERS_D = '''
extern "C" void mkD_valued(ID* s, ID*) { ::new (static_cast<void*>(s)) ID(std::allocator_arg, AD(77)); }
extern "C" void mkD_empty(ID* s, ID* t) {
  ::new (static_cast<void*>(s)) ID(std::allocator_arg, AD(77));
  ::new (static_cast<void*>(t)) ID(std::move(*s));
  t->~ID();
}
extern "C" bool obD_valueless(const ID* h) { return h->valueless_after_move(); }
extern "C" const D* obD_deref(const ID* h) { return std::addressof(**h); }
extern "C" long obD_alloc_id(const ID* h) { return vx_id(h->get_allocator()); }
'''

OBSERVERS = '''
extern "C" bool ob_valueless(const I* h) { return h->valueless_after_move(); }
extern "C" const T* ob_deref(const I* h) { return std::addressof(**h); }
extern "C" long ob_alloc_id(const I* h) { return vx_id(h->get_allocator()); }
extern "C" void ob_dtor(I* h) { h->~I(); }
'''


class CompileError(Exception):
    def __init__(self, msg, both=False):
        super().__init__(msg)
        self.both = both


def flags_for(cfg):
    fl = ['-std=c++%d' % cfg['std'], '-I', HARN, '-I', REPO, '-w']
    if cfg['ndebug']:
        fl.append('-DNDEBUG')
    return fl


def source(cfg, ops):
    return prologue(cfg) + OBSERVERS + ''.join(o.text(cfg) for o in ops)


PCH = {}


def precompile(cfgs, tmp):
    """compile the harness header (standard library included) once per set of flags"""
    todo = {}
    for c in cfgs:
        fl = flags_for(c)
        k = ' '.join(fl)
        if k not in PCH and k not in todo:
            out = os.path.join(tmp, 'vx%d.pch' % (len(PCH) + len(todo)))
            todo[k] = out, subprocess.Popen([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-x', 'c++-header', os.path.join(HARN, 'vx.h'), '-o', out,
                                             '-fno-discard-value-names'] + fl, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for k, (out, q) in todo.items():
        if q.wait() == 0:
            PCH[k] = out


def to_ir(text, cfg, tmp):
    h = hashlib.sha1((text + repr(flags_for(cfg))).encode()).hexdigest()[:16]
    src = os.path.join(tmp, h + '.cc')
    with open(src, 'w') as f:
        f.write(text)
    pch = PCH.get(' '.join(flags_for(cfg)))
    pch = ['-include-pch', pch] if pch else []
    r = subprocess.run([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-o', '-', src,
                        '-fno-discard-value-names'] + pch + flags_for(cfg), capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr)
    return r.stdout


def gxx_ok(text, cfg, tmp):
    src = os.path.join(tmp, 'g%s.cc' % hashlib.sha1(text.encode()).hexdigest()[:16])
    with open(src, 'w') as f:
        f.write(text)
    r = subprocess.run(['g++', '-fsyntax-only', src] + flags_for(cfg), capture_output=True, text=True)
    return r.returncode == 0, r.stderr

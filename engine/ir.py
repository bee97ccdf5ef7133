"""Parser for the textual LLVM IR that clang emits for the code under /repo.

Nothing is dropped silently: an instruction, type or constant that is not
understood raises IRError when it is *executed* (not when it is parsed), so the
caller can report the function as out of reach instead of guessing.
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(
    r'c"[^"]*"|[%@$]"[^"]*"|"[^"]*"|[%@$#][\w.$-]+|![\w.]*|'
    r'-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKMLHR]+|-?\d+|\.\.\.|'
    r'[A-Za-z_][\w.]*|[()\[\]{}<>,=*:|]')

# ---- types -----------------------------------------------------------------
# ('i',N) ('ptr',) ('void',) ('f',bits) ('arr',N,T) ('struct',[T],packed)
# ('named',name) ('vec',N,T) ('label',) ('metadata',) ('fn',)


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> dict(type, init tokens/const, constant)
        self.funcs = {}       # name -> Function (defined)
        self.decls = {}       # name -> attrs set
        self.aliases = {}
        self.attrs = {}
        self._size = {}

    # layout ---------------------------------------------------------------
    def sizeof(self, t):
        k = t if t[0] != 'struct' else ('struct', tuple(map(str, t[1])), t[2])
        try:
            return self._size[k][0]
        except (KeyError, TypeError):
            pass
        r = self._layout(t)
        try:
            self._size[k] = r
        except TypeError:
            pass
        return r[0]

    def alignof(self, t):
        return self._layout(t)[1]

    def _layout(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            return b, b
        if k == 'ptr':
            return 8, 8
        if k == 'f':
            return {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16)}[t[1]]
        if k == 'arr':
            s, a = self._layout(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self._layout(t[2])
            return s * t[1], s * t[1]
        if k == 'named':
            if t[1] not in self.types:
                raise IRError('opaque type %s' % t[1])
            return self._layout(self.types[t[1]])
        if k == 'struct':
            off, al = 0, 1
            for f in t[1]:
                s, a = self._layout(f)
                if not t[2]:
                    off = (off + a - 1) // a * a
                    al = max(al, a)
                off += s
            if not t[2]:
                off = (off + al - 1) // al * al
            return off, al
        raise IRError('layout of %r' % (t,))

    def resolve(self, t):
        while t[0] == 'named':
            if t[1] not in self.types:
                raise IRError('opaque type %s' % t[1])
            t = self.types[t[1]]
        return t

    def field_off(self, t, i):
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self._layout(f)
            if not t[2]:
                off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise IRError('field index')


class Function:
    __slots__ = ('name', 'params', 'blocks', 'entry', 'nounwind', 'varargs', 'lines')


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, m, i=0):
        self.t = toks
        self.i = i
        self.m = m

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.peek() != s:
            raise IRError('expected %r got %r in %s' % (s, self.peek(), ' '.join(self.t)))
        self.i += 1

    # ---- types
    def is_type_start(self):
        t = self.peek()
        if t is None:
            return False
        return (t in ('ptr', 'void', 'float', 'double', 'half', 'x86_fp80', 'fp128', 'label',
                      'metadata', '{', '[', '<', 'token', 'opaque') or re.fullmatch(r'i\d+', t)
                or (t[0] == '%'))

    def type(self):
        t = self.next()
        if t == 'ptr':
            if self.peek() == 'addrspace':
                self.i += 4
            r = ('ptr',)
        elif t == 'void':
            r = ('void',)
        elif t == 'float':
            r = ('f', 32)
        elif t == 'double':
            r = ('f', 64)
        elif t == 'half':
            r = ('f', 16)
        elif t == 'x86_fp80':
            r = ('f', 80)
        elif t == 'fp128':
            r = ('f', 128)
        elif t in ('label', 'metadata', 'token', 'opaque'):
            r = (t,)
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t[0] == '%':
            r = ('named', unq(t))
        elif t == '{':
            r = ('struct', self._tlist('}'), False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                fs = self._tlist('}')
                self.expect('>')
                r = ('struct', fs, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        else:
            raise IRError('type? %r' % t)
        # function type suffix:  i32 (ptr, ...)
        if self.peek() == '(' and self._fn_type_ahead():
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            r = ('fn', r)
        return r

    def _fn_type_ahead(self):
        # '(' types... ')' followed by @ or % callee => a function type
        j, d = self.i, 0
        while j < len(self.t):
            if self.t[j] == '(':
                d += 1
            elif self.t[j] == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        nx = self.t[j + 1] if j + 1 < len(self.t) else None
        return nx is not None and nx[0] in '@%' and '...' in self.t[self.i:j]

    def _tlist(self, close):
        fs = []
        if self.accept(close):
            return fs
        while True:
            fs.append(self.type())
            if self.accept(close):
                return fs
            self.expect(',')

    # ---- operands:  returns ('loc',name) ('glob',name) ('int',v) ('null',)
    # ('undef',) ('zero',) ('agg',[(type,op)]) ('str',bytes) ('ce',...)
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('loc', unq(t))
        if c == '@':
            return ('glob', unq(t))
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('null',)
        if t.startswith('c"'):
            return ('str', unstr(t[2:-1]))
        if t in ('{', '['):
            close = '}' if t == '{' else ']'
            return ('agg', self._vlist(close))
        if t == '<':
            if self.accept('{'):
                v = self._vlist('}')
                self.expect('>')
                return ('agg', v)
            return ('agg', self._vlist('>'))
        if t == 'getelementptr':
            self.accept('inbounds')
            while self.peek() in ('nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(':
                    while self.next() != ')':
                        pass
            self.expect('(')
            sty = self.type()
            self.expect(',')
            ops = self._vlist(')')
            return ('gep', sty, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            a = self.type()
            v = self.value(a)
            self.expect('to')
            b = self.type()
            self.expect(')')
            return ('cast', t, a, v, b)
        if t in ('add', 'sub', 'xor', 'and', 'or', 'mul', 'shl'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            ops = self._vlist(')')
            return ('cbin', t, ops)
        if t == 'icmp':
            pred = self.next()
            self.expect('(')
            ops = self._vlist(')')
            return ('cicmp', pred, ops)
        if t in ('dso_local_equivalent', 'no_cfi'):
            return self.value(ty)
        if ty[0] == 'f':
            return ('flt', t)
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t))
        return ('bad', t)

    def _vlist(self, close):
        vs = []
        if self.accept(close):
            return vs
        while True:
            while self.peek() in ('inrange',):
                self.next()
                if self.peek() == '(':
                    while self.next() != ')':
                        pass
            ty = self.type()
            vs.append((ty, self.value(ty)))
            if self.accept(close):
                return vs
            self.expect(',')

    def tv(self):
        ty = self.type()
        return ty, self.value(ty)

    def skip_attrs(self):
        """parameter / return attributes before a value; returns byval type"""
        by = None
        while True:
            t = self.peek()
            if t is None:
                return by
            if t in PATTR:
                self.next()
                if t == 'align' and self.peek() and self.peek().isdigit():
                    self.next()
                elif self.peek() == '(':
                    self.next()
                    if t == 'byval':
                        by = self.type()
                        self.expect(')')
                        continue
                    d = 1
                    while d:
                        x = self.next()
                        d += x == '('
                        d -= x == ')'
                continue
            if t[0] == '"' or t[0] == '#':
                self.next()
                if self.accept('='):
                    self.next()
                continue
            return by


PATTR = set('''noundef nonnull align dereferenceable dereferenceable_or_null zeroext signext inreg
byval sret noalias nocapture returned nest swiftself immarg readonly readnone writeonly allocalign
allocptr range initializes nofree dead_on_unwind writable captures inalloca preallocated elementtype
byref nofpclass'''.split())

FATTR = set('''private internal available_externally linkonce weak common appending extern_weak
linkonce_odr weak_odr external default hidden protected dllimport dllexport dso_local
dso_preemptable fastcc ccc coldcc tail musttail notail unnamed_addr local_unnamed_addr
externally_initialized thread_local'''.split())


def unq(t):
    s = t[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


def unstr(s):
    out = bytearray()
    i = 0
    b = s.encode('latin-1', 'replace')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def toks(line):
    # strip trailing comment (; not inside quotes) and metadata attachments
    if ';' in line:
        out, q = [], False
        for ch in line:
            if ch == '"':
                q = not q
            if ch == ';' and not q:
                break
            out.append(ch)
        line = ''.join(out)
    return TOK.findall(line)


BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast fptrunc fpext fptoui fptosi uitofp sitofp addrspacecast'.split())


def parse_instr(line, m):
    tk = toks(line)
    p = P(tk, m)
    dest = None
    if len(tk) > 1 and tk[1] == '=' and tk[0][0] == '%':
        dest = unq(tk[0])
        p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        n = None
        al = 1
        while p.accept(','):
            if p.peek() == 'align':
                p.next()
                al = int(p.next())
            elif p.is_type_start():
                n = p.tv()
            else:
                break
        return ('alloca', dest, ty, n, al)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        pt = p.type()
        return ('load', dest, ty, p.value(pt))
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        ty, v = p.tv()
        p.expect(',')
        pt = p.type()
        return ('store', ty, v, p.value(pt))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        sty = p.type()
        p.expect(',')
        ops = [p.tv()]
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            ops.append(p.tv())
        return ('gep', dest, sty, ops)
    if op in ('call', 'invoke'):
        while p.peek() in ('fastcc', 'ccc', 'coldcc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
            p.next()
        p.skip_attrs()
        rty = p.type()
        if p.peek() == 'asm':
            return ('asm', dest, line)
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                ty = p.type()
                if ty == ('metadata',):
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += x == '('
                        d -= x == ')'
                    args.append((ty, ('undef',), None))
                else:
                    by = p.skip_attrs()
                    args.append((ty, p.value(ty), by))
                if p.accept(')'):
                    break
                p.expect(',')
        nounwind = False
        while p.peek() is not None and (p.peek()[0] == '#' or p.peek() in ('nounwind', 'noreturn', 'builtin', 'cold', 'nobuiltin')
                                        or p.peek()[0] == '"'):
            x = p.next()
            if x == 'nounwind':
                nounwind = True
            elif x[0] == '#':
                nounwind = nounwind or ('ATTR', x[1:])
            if p.peek() == '=':
                p.next(); p.next()
        if op == 'call':
            return ('call', dest, rty, callee, args, nounwind)
        p.expect('to')
        p.expect('label')
        nl = unq(p.next())
        p.expect('unwind')
        p.expect('label')
        ul = unq(p.next())
        return ('invoke', dest, rty, callee, args, nounwind, nl, ul)
    if op == 'br':
        if p.accept('label'):
            return ('jmp', unq(p.next()))
        ty, v = p.tv()
        p.expect(',')
        p.expect('label')
        a = unq(p.next())
        p.expect(',')
        p.expect('label')
        return ('br', v, a, unq(p.next()))
    if op == 'switch':
        ty, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cs = []
        while not p.accept(']'):
            _, c = p.tv()
            p.expect(',')
            p.expect('label')
            cs.append((c[1], unq(p.next())))
        return ('switch', ty, v, d, cs)
    if op == 'ret':
        if p.accept('void'):
            return ('ret', None, None)
        ty, v = p.tv()
        return ('ret', ty, v)
    if op == 'resume':
        ty, v = p.tv()
        return ('resume', ty, v)
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'landingpad':
        ty = p.type()
        cl = False
        clauses = []
        while p.peek() is not None:
            x = p.next()
            if x == 'cleanup':
                cl = True
            elif x in ('catch', 'filter'):
                t2, v = p.tv()
                clauses.append((x, v))
            else:
                break
        return ('landingpad', dest, cl, clauses)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('samesign', 'fast', 'nnan'):
            p.next()
        pred = p.next()
        ty, a = p.tv()
        p.expect(',')
        return (op, dest, pred, ty, a, p.value(ty))
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            inc.append((v, unq(p.next())))
            p.expect(']')
            if not p.accept(','):
                break
            if p.peek()[0] == '!':
                break
        return ('phi', dest, ty, inc)
    if op == 'select':
        cty, c = p.tv()
        p.expect(',')
        ty, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return ('select', dest, c, ty, a, b)
    if op in BINOPS:
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast'):
            p.next()
        ty, a = p.tv()
        p.expect(',')
        return ('bin', dest, op, ty, a, p.value(ty))
    if op == 'fneg':
        ty, a = p.tv()
        return ('fneg', dest, ty, a)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        a, v = p.tv()
        p.expect('to')
        return ('cast', dest, op, a, v, p.type())
    if op == 'extractvalue':
        ty, v = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return ('extractvalue', dest, ty, v, idx)
    if op == 'insertvalue':
        ty, v = p.tv()
        p.expect(',')
        t2, w = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        return ('insertvalue', dest, ty, v, t2, w, idx)
    if op == 'freeze':
        ty, v = p.tv()
        return ('freeze', dest, ty, v)
    if op == 'fence':
        return ('nop',)
    if op == 'atomicrmw':
        p.accept('volatile')
        k = p.next()
        pt, a = p.tv()
        p.expect(',')
        ty, v = p.tv()
        return ('atomicrmw', dest, k, ty, a, v)
    if op == 'cmpxchg':
        p.accept('weak')
        p.accept('volatile')
        pt, a = p.tv()
        p.expect(',')
        ty, c = p.tv()
        p.expect(',')
        _, n = p.tv()
        return ('cmpxchg', dest, ty, a, c, n)
    return ('unknown', dest, line)


def parse(text):
    m = Module()
    lines = text.split('\n')
    i, n = 0, len(lines)
    pend = []
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ';!$' or ln.startswith(('source_filename', 'target ')):
            continue
        if ln[0] == '%':
            tk = toks(ln)
            p = P(tk, m, 3)
            if tk[3] != 'opaque':
                m.types[unq(tk[0])] = p.type()
            continue
        if ln[0] == '@':
            pend.append(ln)
            continue
        if ln.startswith('attributes'):
            mm = re.match(r'attributes #(\d+) = \{(.*)\}', ln)
            m.attrs[mm.group(1)] = set(re.sub(r'"[^"]*"(?:="[^"]*")?', '', mm.group(2)).split())
            continue
        if ln.startswith('declare'):
            tk = toks(ln)
            k = next(j for j, t in enumerate(tk) if t[0] == '@')
            m.decls[unq(tk[k])] = [t[1:] for t in tk if t[0] == '#']
            continue
        if ln.startswith('define'):
            f = Function()
            tk = toks(ln)
            k = next(j for j, t in enumerate(tk) if t[0] == '@')
            f.name = unq(tk[k])
            p = P(tk, m, k + 1)
            p.expect('(')
            f.params = []
            f.varargs = False
            if not p.accept(')'):
                while True:
                    if p.accept('...'):
                        f.varargs = True
                    else:
                        ty = p.type()
                        by = p.skip_attrs()
                        nm = unq(p.next()) if p.peek()[0] == '%' else None
                        f.params.append((ty, nm, by))
                    if p.accept(')'):
                        break
                    p.expect(',')
            f.nounwind = [t[1:] for t in tk[p.i:] if t[0] == '#']
            f.lines = []
            while lines[i] != '}':
                f.lines.append(lines[i])
                i += 1
            i += 1
            f.blocks = None
            m.funcs[f.name] = f
            continue
    for ln in pend:
        tk = toks(ln)
        name = unq(tk[0])
        p = P(tk, m, 2)
        ext = False
        if 'alias' in tk[:12]:
            j = tk.index('alias')
            q = P(tk, m, j + 1)
            q.type()
            q.expect(',')
            q.type()
            v = q.value(('ptr',))
            m.aliases[name] = v[1] if v[0] == 'glob' else None
            continue
        tl = False
        while p.peek() not in ('global', 'constant'):
            x = p.next()
            if x in ('external', 'extern_weak'):
                ext = True
            if x == 'thread_local':
                tl = True
        const = p.next() == 'constant'
        ty = p.type()
        init = None
        if not ext:
            init = p.value(ty)
        al = 1
        if 'align' in tk:
            al = int(tk[tk.index('align', p.i if p.i < len(tk) else 0) + 1]) if 'align' in tk[p.i:] else 1
        m.globals[name] = dict(type=ty, init=init, const=const, align=al, tls=tl, ext=ext)
    for f in m.funcs.values():
        f.nounwind = any('nounwind' in m.attrs.get(a, ()) for a in f.nounwind)
    for k in list(m.decls):
        m.decls[k] = set().union(*[m.attrs.get(a, set()) for a in m.decls[k]]) if m.decls[k] else set()
    return m


def decode(f, m):
    """lazily decode the body of f into basic blocks"""
    if f.blocks is not None:
        return
    # join continuation lines (switch, landingpad, invoke)
    src = []
    buf = None
    for ln in f.lines:
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        if ln and ln[0] not in ' \t':
            if buf is not None:
                src.append(buf)
                buf = None
            src.append(('LABEL', s))
            continue
        cont = (ln.startswith('          ') or s == ']' or ln.startswith('    '))
        if cont and buf is not None:
            buf += ' ' + s
        else:
            if buf is not None:
                src.append(buf)
            buf = s
    if buf is not None:
        src.append(buf)
    blocks = {}
    cur = None
    f.entry = None
    nparam = len(f.params)
    for s in src:
        if isinstance(s, tuple):
            lab = re.match(r'("[^"]*"|[\w.$-]+):', s[1]).group(1).strip('"')
            cur = blocks[lab] = []
            if f.entry is None:
                f.entry = lab
            continue
        if cur is None:
            # unnamed entry block: its number is the count of unnamed params
            f.entry = str(nparam)
            cur = blocks[f.entry] = []
        # '; preds' comments are stripped by toks
        cur.append(parse_instr(s, m))
    f.blocks = blocks

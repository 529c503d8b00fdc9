"""Reader for the textual LLVM IR that clang emits for /repo's sources.

Only reads: nothing here changes or simplifies the program.  Functions are parsed lazily."""
import re

TOK = re.compile(r'''\s*(?:(;[^\n]*)|(%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+|c"(?:[^"\\]|\\.)*"|"[^"]*"|!"[^"]*"|![\w.$-]*|\#\d+|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|\.\.\.|[A-Za-z_$][\w.$]*|[(){}\[\]<>,=*|:]))''')


def tokenize(s):
    out = []
    pos, n = 0, len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise SyntaxError('IR token at %r' % s[pos:pos + 60])
        pos = m.end()
        if m.group(2) is not None:
            out.append(m.group(2))
    return out


def unq(s):
    # %"a b" -> a b ; %x -> x
    return s[2:-1] if s[1] == '"' else s[1:]


class Ins:
    __slots__ = ('op', 'res', 'ty', 'args', 'attrs', 'line', 'text')

    def __init__(self, op, res, ty, args, attrs=None, line=0, text=''):
        self.op, self.res, self.ty, self.args = op, res, ty, args
        self.attrs = attrs or {}
        self.line = line
        self.text = text

    def __repr__(self):
        return 'Ins(%s)' % self.text.strip()


I1 = ('int', 1)
I8 = ('int', 8)
I32 = ('int', 32)
I64 = ('int', 64)
PTR = ('ptr',)
VOID = ('void',)

PARAM_ATTR_SIMPLE = {
    'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
    'returned', 'inreg', 'nest', 'immarg', 'swiftself', 'noreturn', 'nounwind', 'dead_on_unwind', 'writable',
    'allocptr', 'allocalign', 'nofree'}
PARAM_ATTR_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'preallocated',
                    'inalloca', 'elementtype', 'range', 'captures', 'initializes', 'nofpclass'}
CONSTEXPR_OPS = {'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'add', 'sub', 'mul',
                 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'select', 'addrspacecast'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r in %r' % (x, y, ' '.join(self.t)))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        x = self.next()
        if x == 'void':
            t = VOID
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.skip_parens()
        elif re.fullmatch(r'i\d+', x):
            t = ('int', int(x[1:]))
        elif x in ('float', 'double', 'x86_fp80', 'half', 'fp128', 'label', 'metadata', 'token'):
            t = (x,)
        elif x[0] == '%':
            t = ('named', unq(x))
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = ('struct', self.types_until('}'), True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            t = ('struct', self.types_until('}'), False)
        else:
            raise SyntaxError('type %r in %r' % (x, ' '.join(self.t)))
        while self.peek() == '(':      # function type
            self.next()
            va = False
            ps = []
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    ps.append(self.type())
                    self.skip_attrs()
                self.accept(',')
            t = ('fn', t, tuple(ps), va)
        while self.peek() == '*':
            self.next(); t = PTR
        return t

    def types_until(self, end):
        ts = []
        while not self.accept(end):
            ts.append(self.type())
            self.accept(',')
        return tuple(ts)

    def skip_attrs(self):
        d = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTR_SIMPLE or (x and x.startswith('#')):
                d[x] = True
                self.next()
            elif x in PARAM_ATTR_PAREN:
                self.next()
                if self.peek() == '(':
                    st = self.i
                    self.skip_parens()
                    if x in ('sret', 'byval'):
                        sub = P(self.t[st + 1:self.i - 1], self.mod)
                        d[x] = sub.type()
                    else:
                        d[x] = self.t[st + 1:self.i - 1]
                else:
                    d[x] = int(self.next())
            elif x and x[0] == '"' and x != '"':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return d

    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%':
            return ('loc', unq(x))
        if c == '@':
            return ('glob', unq(x))
        if x == 'true':
            return ('const', 1)
        if x == 'false':
            return ('const', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'none':
            return ('zero',)
        if x.startswith('0x'):
            return ('fphex', x)
        if re.fullmatch(r'-?\d+', x):
            return ('const', int(x))
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', x):
            return ('fpdec', float(x))
        if x.startswith('c"'):
            return ('bytes', cbytes(x[2:-1]))
        if x == '{' or x == '[' or x == '<':
            packed = False
            if x == '<' and self.peek() == '{':
                self.next(); packed = True; x = '{'
            end = {'{': '}', '[': ']', '<': '>'}[x]
            vs = []
            while not self.accept(end):
                t = self.type()
                vs.append((t, self.value(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', tuple(vs))
        if x in CONSTEXPR_OPS:
            return self.constexpr(x)
        if x in ('dso_local_equivalent', 'no_cfi'):
            return self.value(ty)
        raise SyntaxError('value %r in %r' % (x, ' '.join(self.t)))

    def constexpr(self, op):
        fl = {}
        while self.peek() in ('inbounds', 'nuw', 'nsw', 'exact', 'inrange'):
            fl[self.next()] = True
        if op == 'icmp':
            pred = self.next()
        self.expect('(')
        if op == 'getelementptr':
            bt = self.type()
            self.accept(',')
            vs = []
            while not self.accept(')'):
                if self.peek() == 'inrange':
                    self.next()
                t = self.type(); vs.append((t, self.value(t))); self.accept(',')
            return ('cexpr', op, bt, tuple(vs))
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('cexpr', op, t, v, t2)
        vs = []
        while not self.accept(')'):
            t = self.type(); vs.append((t, self.value(t))); self.accept(',')
        if op == 'icmp':
            return ('cexpr', op, pred, tuple(vs))
        return ('cexpr', op, None, tuple(vs))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


def cbytes(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Func:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self.header = mod, name, header
        self.body = body            # list of raw lines or None
        self._parsed = False
        self.parse_header()

    def parse_header(self):
        toks = tokenize(self.header)
        p = P(toks, self.mod)
        p.next()
        # linkage etc. until a type followed by @name
        skip = {'dso_local', 'internal', 'private', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'available_externally',
                'external', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'extern_weak', 'fastcc', 'dso_preemptable'}
        while p.peek() in skip:
            p.next()
        p.skip_attrs()
        # the return type must not swallow the parameter list
        self.ret = p.type()
        p.next()
        p.expect('(')
        self.params, self.vararg = [], False
        while not p.accept(')'):
            if p.accept('...'):
                self.vararg = True
            else:
                t = p.type(); at = p.skip_attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%':
                    nm = unq(p.next())
                self.params.append((t, nm, at))
            p.accept(',')
        rest = p.t[p.i:]
        self.attrgroups = [x for x in rest if x.startswith('#')]
        if self.params and self.params[0][1] is None:
            self.params = [(t, str(i), a) for i, (t, _, a) in enumerate(self.params)]
        self.comdat = 'comdat' in rest

    @property
    def has_body(self):
        return self.body is not None

    def parse(self):
        if self._parsed:
            return
        self._parsed = True
        blocks = {}
        order = []
        cur = None
        lines = self.body
        i = 0
        label_re = re.compile(r'^("[^"]*"|[-\w.$]+):')
        nparams = len(self.params)
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            m = label_re.match(ln)
            if m:
                cur = m.group(1).strip('"')
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = str(nparams)   # unnamed entry block
                blocks[cur] = []
                order.append(cur)
            s = ln.strip()
            if s.startswith('switch'):
                while ']' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            blocks[cur].append(parse_ins(s, self.mod))
        self.blocks, self.order = blocks, order
        self.entry = order[0]
        self._loops()

    # ---- CFG / natural loops
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(dict.fromkeys(t.args['targets']))
        if t.op == 'switch':
            return list(dict.fromkeys([t.args['default']] + [x for _, x in t.args['cases']]))
        return []

    def _loops(self):
        succ = {b: self.succs(b) for b in self.order}
        # reachable, postorder
        seen, post = set(), []
        stack = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(b); stack.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new; ch = True
        self.preds = preds

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        for b in rpo:
            for s in succ[b]:
                if num[s] <= num[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])


DBG_TAIL = re.compile(r',\s*!(?:tbaa|dbg|llvm\.[\w.]+|srcloc|range|prof|noundef|nonnull|align|tbaa\.struct|heapallocsite|unpredictable|invariant\.\w+|nosanitize|noalias|alias\.scope|annotation|dereferenceable\w*|callees|vcall_visibility|type|associated|absolute_symbol|invariant)\b[^!]*(![0-9]+|!\{[^}]*\})')
DBG = re.compile(r'!dbg !(\d+)')


def parse_ins(s, mod):
    text = s
    line = 0
    m = DBG.search(s)
    if m:
        line = mod.dbg_line(m.group(1))
    # cut metadata attachments: ", !name !N"
    s = re.sub(r'(,\s*)?![A-Za-z][\w.]* !(\d+|\{[^}]*\})', '', s) if 'metadata' not in s else s
    res = None
    toks = tokenize(s)
    p = P(toks, mod)
    if p.peek(1) == '=':
        res = unq(p.next())
        p.next()
    op = p.next()
    mk = lambda ty, args, attrs=None: Ins(op, res, ty, args, attrs, line, text)
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        n = None
        al = 1
        while p.accept(','):
            if p.accept('align'):
                al = int(p.next())
            else:
                n = p.tv()
        return mk(PTR, (ty, n), {'align': al})
    if op == 'load':
        at = p.accept('atomic')
        p.accept('volatile')
        ty = p.type(); p.expect(',')
        ptr = p.tv()
        a = {'atomic': at}
        rest = p.t[p.i:]
        if 'align' in rest:
            a['align'] = int(rest[rest.index('align') + 1])
        a['ord'] = [x for x in rest if x in ORDS]
        return mk(ty, (ptr[1],), a)
    if op == 'store':
        at = p.accept('atomic')
        p.accept('volatile')
        v = p.tv(); p.expect(',')
        ptr = p.tv()
        a = {'atomic': at}
        rest = p.t[p.i:]
        if 'align' in rest:
            a['align'] = int(rest[rest.index('align') + 1])
        a['ord'] = [x for x in rest if x in ORDS]
        return mk(VOID, (v, ptr[1]), a)
    if op == 'getelementptr':
        inb = p.accept('inbounds')
        bt = p.type(); p.expect(',')
        vs = []
        while True:
            vs.append(p.tv())
            if not p.accept(','):
                break
        return mk(PTR, (bt, vs), {'inbounds': inb})
    if op in BINOPS:
        fl = {}
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            fl[p.next()] = True
        ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return mk(ty, (a, b), fl)
    if op == 'fneg':
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        ty = p.type(); a = p.value(ty)
        return mk(ty, (a,))
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        pred = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
        return mk(I1, (pred, ty, a, b))
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        ty = p.type(); v = p.value(ty); p.expect('to'); t2 = p.type()
        return mk(t2, (ty, v))
    if op == 'select':
        c = p.tv(); p.expect(','); a = p.tv(); p.expect(','); b = p.tv()
        return mk(a[0], (c, a[1], b[1]))
    if op == 'freeze':
        v = p.tv()
        return mk(v[0], (v[1],))
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty); p.expect(','); b = unq(p.next()); p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return mk(ty, tuple(inc))
    if op == 'br':
        if p.accept('label'):
            return mk(VOID, {'cond': None, 'targets': [unq(p.next())]})
        c = p.tv(); p.expect(','); p.expect('label'); a = unq(p.next()); p.expect(','); p.expect('label'); b = unq(p.next())
        return mk(VOID, {'cond': c[1], 'targets': [a, b]})
    if op == 'switch':
        v = p.tv(); p.expect(','); p.expect('label'); d = unq(p.next()); p.expect('[')
        cases = []
        while not p.accept(']'):
            c = p.tv(); p.expect(','); p.expect('label'); cases.append((c[1], unq(p.next())))
        return mk(VOID, {'val': v, 'default': d, 'cases': cases})
    if op == 'ret':
        if p.accept('void'):
            return mk(VOID, (None, None))
        v = p.tv()
        return mk(VOID, v)
    if op == 'unreachable':
        return mk(VOID, ())
    if op in ('call', 'invoke'):
        while p.peek() in ('fastcc', 'ccc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'coldcc'):
            p.next()
        p.skip_attrs()
        # return type possibly with function type
        rt = p.type()
        if rt[0] == 'fn':
            rt = rt[1]
        if p.peek() == 'asm':
            return Ins('asm', res, rt, (), {}, line, text)
        callee = p.value(PTR)
        p.expect('(')
        args, attrs = [], []
        while not p.accept(')'):
            t = p.type()
            if t == ('metadata',):
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    d += (x in '({') - (x in ')}')
                args.append((t, ('undef',)))
                attrs.append({})
            else:
                at = p.skip_attrs()
                args.append((t, p.value(t)))
                attrs.append(at)
            p.accept(',')
        return Ins('call', res, rt, (callee, args, attrs), {'tail': p.t[p.i:]}, line, text)
    if op == 'extractvalue':
        v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return mk(None, (v, idx))
    if op == 'insertvalue':
        v = p.tv(); p.expect(','); e = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return mk(v[0], (v, e, idx))
    if op == 'atomicrmw':
        p.accept('volatile')
        o = p.next(); ptr = p.tv(); p.expect(','); v = p.tv()
        return mk(v[0], (o, ptr[1], v), {'ord': [x for x in p.t[p.i:] if x in ORDS]})
    if op == 'cmpxchg':
        weak = p.accept('weak')
        p.accept('volatile')
        ptr = p.tv(); p.expect(','); c = p.tv(); p.expect(','); n = p.tv()
        return mk(('struct', (c[0], I1), False), (ptr[1], c, n), {'weak': weak, 'ord': [x for x in p.t[p.i:] if x in ORDS]})
    if op == 'fence':
        return mk(VOID, (), {'ord': [x for x in p.t[p.i:] if x in ORDS]})
    if op == 'va_arg':
        v = p.tv(); p.expect(','); t = p.type()
        return mk(t, (v[1],))
    raise SyntaxError('instruction %r' % text)


ORDS = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.dbg = {}, {}, {}, {}
        self.aliases = {}
        self._sz = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)$', ln)
                if m:
                    self.types[unq(m.group(1))] = m.group(2)
            elif c == '@':
                m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', ln)
                nm, rest = unq(m.group(1)), m.group(2)
                if re.search(r'\balias\b', rest.split('@')[0]):
                    self.aliases[nm] = unq(re.findall(r'(@"[^"]*"|@[-\w.$]+)', rest)[-1])
                else:
                    self.globals[nm] = rest
            elif ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                i += 1
                nm = unq(re.search(r'(@"[^"]*"|@[-\w.$]+)\(', ln).group(1))
                hdr = ln[:ln.rindex('{')]
                hdr = re.sub(r'!\w+ !\d+', '', hdr)
                hdr = re.sub(r'comdat\([^)]*\)', 'comdat', hdr)
                self.funcs[nm] = Func(self, nm, hdr, body)
            elif ln.startswith('declare'):
                nm = unq(re.search(r'(@"[^"]*"|@[-\w.$]+)\(', ln).group(1))
                if nm not in self.funcs:
                    try:
                        self.funcs[nm] = Func(self, nm, re.sub(r'!\w+ !\d+ ', '', ln), None)
                    except SyntaxError:
                        pass
            elif c == '!':
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', ln)
                if m:
                    self.dbg[m.group(1)] = int(m.group(2))
        self._gcache = {}

    def dbg_line(self, k):
        return self.dbg.get(k, 0)

    def resolve(self, t):
        while t[0] == 'named':
            d = self.types[t[1]]
            if isinstance(d, str):
                if d == 'opaque':
                    d = ('struct', (), False)
                else:
                    d = P(tokenize(d), self).type()
                self.types[t[1]] = d
            t = d
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            return min(16, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if k == 'ptr' or k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80' or k == 'fp128':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'struct':
            if t[2]:
                return 1
            return max([1] + [self.align(x) for x in t[1]])
        raise KeyError(t)

    def size(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._size(t)
            self._sz[t] = r
        return r

    def _size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr' or k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80' or k == 'fp128':
            return 16
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'struct':
            offs, sz = self.offsets(t)
            return sz
        raise KeyError(t)

    def offsets(self, t):
        t = self.resolve(t)
        o, offs, mx = 0, [], 1
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(x)
            mx = max(mx, a)
        o = (o + mx - 1) // mx * mx
        return offs, o

    def parse_global(self, nm):
        """-> (is_const, type, init or None)"""
        if nm in self._gcache:
            return self._gcache[nm]
        rest = self.globals[nm]
        rest = re.sub(r',\s*!\w+ !\d+', '', rest)
        p = P(tokenize(rest), self)
        ext = False
        const = None
        while True:
            x = p.peek()
            if x == 'constant' or x == 'global':
                const = (x == 'constant'); p.next(); break
            if x == 'thread_local':
                p.next()
                if p.peek() == '(':
                    p.skip_parens()
                continue
            if x in ('external', 'extern_weak', 'available_externally'):
                ext = x != 'available_externally'
            p.next()
        ty = p.type()
        init = None
        if p.peek() not in (None, ',') and not ext:
            init = p.value(ty)
        r = (const, ty, init)
        self._gcache[nm] = r
        return r

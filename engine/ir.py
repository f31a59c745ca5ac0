"""Lazy parser for textual LLVM IR (clang 18, opaque pointers)."""
import re, sys

TOK = re.compile(r'''
 (?P<ws>[ \t\r\n]+|;[^\n]*)
|(?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<lname>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<gname>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<meta>![-a-zA-Z$._0-9]*)
|(?P<attr>\#[0-9]+)
|(?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|-?0x[0-9A-Fa-fKLMH]+|-?[0-9]+)
|(?P<word>[a-zA-Z_$][-a-zA-Z$._0-9]*)
|(?P<dots>\.\.\.)
|(?P<p>[()\[\]{}<>,=*:|^])
''', re.X)

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m: raise SyntaxError('tok: %r' % s[pos:pos+60])
        k = m.lastgroup
        if k != 'ws': out.append((k, m.group()))
        pos = m.end()
    return out

# ---- types: 'ptr','void','float','double','label','token','metadata', ('i',n), ('arr',n,t), ('vec',n,t), ('st',packed,(t...)), ('named',name)
PARAM_ATTRS = set('noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext returned immarg inreg nofree nest swiftself swifterror swiftasync dead_on_unwind writable allocalign allocptr noreturn nounwind dso_local nofpclass noext'.split())
PAREN_ATTRS = set('align dereferenceable dereferenceable_or_null sret byval byref inalloca preallocated elementtype memory range initializes captures'.split())

class P:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t[max(0, self.i-12):self.i+8])))
    def type(self):
        k, v = self.t[self.i]; self.i += 1
        if k == 'word':
            if v == 'ptr':
                if self.peek() == 'addrspace': self.i += 4
                t = 'ptr'
            elif v[0] == 'i' and v[1:].isdigit(): t = ('i', int(v[1:]))
            elif v in ('void', 'float', 'double', 'half', 'x86_fp80', 'fp128', 'label', 'token', 'metadata', 'opaque', 'x86_mmx'): t = v
            else: raise SyntaxError('type? ' + v)
        elif v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); t = ('arr', n, e)
        elif v == '<':
            if self.peek() == '{':
                self.next(); t = self._struct(True); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); t = ('vec', n, e)
        elif v == '{': t = self._struct(False)
        elif k == 'lname': t = ('named', v)
        else: raise SyntaxError('type? %r' % v)
        while self.peek() == '(':   # function type (varargs call)
            d = 0
            while True:
                x = self.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
            t = ('fn', t)
        return t
    def _struct(self, packed):
        fs = []
        while not self.accept('}'):
            fs.append(self.type()); self.accept(',')
        return ('st', packed, tuple(fs))
    def skip_attrs(self):
        """skip parameter/return attributes; returns dict of interesting ones"""
        r = {}
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if k == 'word' and v in PARAM_ATTRS: self.i += 1
            elif k == 'word' and v in PAREN_ATTRS and (v != 'align' or True):
                self.i += 1
                if self.peek() == '(':
                    self.i += 1
                    if v in ('sret', 'byval'): r[v] = self.type(); self.expect(')')
                    else:
                        d = 1
                        while d:
                            x = self.next(); d += x == '('; d -= x == ')'
                elif v == 'align': self.i += 1
            elif k == 'str' and v[0] != 'c': # "attr"="x"
                self.i += 1
                if self.accept('='): self.i += 1
            else: break
        return r
    def value(self, ty):
        k, v = self.t[self.i]; self.i += 1
        if k == 'lname': return ('l', v)
        if k == 'gname': return ('g', v)
        if k == 'num':
            if ty in ('float', 'double'):
                if v.startswith('0x'):
                    import struct
                    return ('f', struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0])
                return ('f', float(v))
            return ('c', int(v, 0))
        if k == 'word':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('c', 0)
            if v == 'none': return ('c', 0)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'): self.next()
                self.expect('('); t = self.type(); self.expect(',')
                ops = self.tvlist(')'); return ('gep', t, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('('); t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('cast', v, t, x, t2)
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.peek() in ('nuw', 'nsw', 'exact'): self.next()
                self.expect('('); a = self.tv(); self.expect(','); b = self.tv(); self.expect(')')
                return ('bin', v, a[0], a[1], b[1])
            if v in ('dso_local_equivalent', 'no_cfi'): return self.value(ty)
            if v == 'asm':
                while self.kind() != 'str': self.next()
                s = self.next(); self.expect(','); c = self.next()
                return ('asm', s, c)
            raise SyntaxError('value? ' + v)
        if k == 'str':
            s = v[2:-1]; b = bytearray(); j = 0
            while j < len(s):
                if s[j] == '\\':
                    if s[j+1] == '\\': b.append(92); j += 2
                    else: b.append(int(s[j+1:j+3], 16)); j += 3
                else: b.append(ord(s[j])); j += 1
            return ('bytes', bytes(b))
        if v == '[' or v == '{':
            return ('agg', self.tvlist(']' if v == '[' else '}'))
        if v == '<':
            if self.accept('{'):
                r = self.tvlist('}'); self.expect('>'); return ('agg', r)
            return ('agg', self.tvlist('>'))
        if k == 'meta':
            if self.peek() == '{' or self.peek() == '(':
                d = 0
                while True:
                    x = self.next(); d += x in '({'; d -= x in ')}'
                    if d == 0: break
            return ('meta',)
        raise SyntaxError('value? %r in %r' % (v, ' '.join(x[1] for x in self.t[max(0, self.i-10):self.i+5])))
    def tv(self):
        t = self.type()
        if t == 'metadata':
            # skip to matching , or )
            d = 0
            while True:
                p = self.peek()
                if d == 0 and p in (',', ')'): break
                d += p in ('(', '{', '['); d -= p in (')', '}', ']')
                self.next()
            return (t, ('meta',), {})
        a = self.skip_attrs()
        if self.peek() == 'inrange': self.next()
        return (t, self.value(t), a)
    def tvlist(self, end):
        r = []
        while not self.accept(end):
            self.accept('inrange')
            r.append(self.tv()); self.accept(',')
        return r

class Function:
    __slots__ = ('name', 'header', 'body', 'parsed', 'params', 'rettype', 'blocks', 'entry', 'mod', 'is_coro', 'linkage', 'vararg', 'loopheads', 'sret', 'memo')
    def __init__(self, name, header, body, mod):
        self.name = name; self.header = header; self.body = body; self.mod = mod; self.parsed = False
        self.is_coro = 'presplitcoroutine' in header or None
        self.loopheads = None; self.memo = {}
    def parse(self):
        if self.parsed: return self
        self.parsed = True
        p = P(tokenize(self.header), self.mod)
        p.expect('define')
        self.linkage = ''
        while p.kind() != 'gname':
            # find return type: attempt
            w = p.peek()
            if w in ('internal', 'private', 'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'external', 'available_externally'): self.linkage = w; p.next()
            elif w in ('dso_local', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'dso_preemptable'): p.next()
            elif p.kind() == 'word' and (w in PARAM_ATTRS or w in PAREN_ATTRS): p.skip_attrs()
            else: self.rettype = p.type()
        p.next(); p.expect('(')
        self.params = []; self.vararg = False
        idx = 0
        while not p.accept(')'):
            if p.accept('...'): self.vararg = True; continue
            t = p.type(); a = p.skip_attrs()
            if p.kind() == 'lname': n = p.next()
            else: n = '%' + str(idx)
            if n[1:].isdigit(): idx = int(n[1:]) + 1
            self.params.append((t, n, a)); p.accept(',')
        self.blocks = {}
        cur = None; lines = None
        unnamed = idx
        pend = None
        first = True
        for line in self.body:
            if not line.strip(): continue
            if line[0] not in ' \t':
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', line)
                if not m: continue
                cur = '%' + m.group(1); lines = []
                self.blocks[cur] = lines
                if first: self.entry = cur; first = False
                continue
            if cur is None:
                cur = '%' + str(unnamed); lines = []; self.blocks[cur] = lines; self.entry = cur; first = False
            if line.startswith('    '):   # continuation (switch cases, invoke to, landingpad clauses)
                lines[-1] += ' ' + line.strip()
            elif line.strip() == ']':
                lines[-1] += ' ]'
            else:
                lines.append(line.strip())
        for b in self.blocks:
            self.blocks[b] = [parse_inst(l, self.mod) for l in self.blocks[b]]
        self.body = None
        return self

def strip_md(toks):
    # drop trailing ", !tbaa !5" and "#12"
    for j, (k, v) in enumerate(toks):
        if k == 'meta' and j and toks[j-1][1] == ',':
            return toks[:j-1]
    return toks

BIN = set('add sub mul sdiv udiv srem urem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast fptosi fptoui sitofp uitofp fpext fptrunc addrspacecast'.split())

def parse_inst(line, mod):
    toks = strip_md(tokenize(line))
    p = P(toks, mod)
    dst = None
    if p.kind() == 'lname' and p.peek(1) == '=':
        dst = p.next(); p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'): op = p.next()
    if op == 'alloca':
        t = p.type(); n = None; al = 1
        while p.accept(','):
            if p.peek() == 'align': p.next(); al = int(p.next())
            else: n = p.tv()
        return ('alloca', dst, t, n, al)
    if op == 'load':
        at = p.accept('atomic'); vol = p.accept('volatile')
        t = p.type(); p.expect(','); a = p.tv()
        return ('load', dst, t, a[1])
    if op == 'store':
        p.accept('atomic'); p.accept('volatile')
        v = p.tv(); p.expect(','); a = p.tv()
        return ('store', None, v[0], v[1], a[1])
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        t = p.type(); p.expect(',')
        base = p.tv(); idx = []
        while p.accept(','): x = p.tv(); idx.append((x[0], x[1]))
        return ('gep', dst, t, base[1], idx)
    if op in ('call', 'invoke'):
        while p.kind() == 'word' and p.peek() in ('fastcc', 'ccc', 'coldcc', 'nnan', 'ninf', 'nsz', 'fast', 'reassoc', 'arcp', 'contract', 'afn', 'x86_regcallcc'): p.next()
        p.skip_attrs()
        rt = p.type()
        if isinstance(rt, tuple) and rt[0] == 'fn': rt = rt[1]
        callee = p.value('ptr')
        p.expect('(')
        args = []
        while not p.accept(')'):
            args.append(p.tv()); p.accept(',')
        while p.kind() in ('attr', 'str') or (p.kind() == 'word' and p.peek() in PARAM_ATTRS|{'memory','builtin','nobuiltin','cold'}):
            p.next()
            if p.accept('='): p.next()
            if p.peek() == '(' :
                while not p.accept(')'): p.next()
        if p.peek() == '[' and op == 'call':  # bundles
            while not p.accept(']'): p.next()
        nl = ul = None
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.expect('label'); nl = p.next(); p.expect('unwind'); p.expect('label'); ul = p.next()
        return (op, dst, rt, callee, args, nl, ul)
    if op == 'ret':
        if p.peek() == 'void': return ('ret', None, None, None)
        v = p.tv(); return ('ret', None, v[0], v[1])
    if op == 'br':
        if p.accept('label'): return ('br', None, p.next())
        p.type(); c = p.value(('i', 1)); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return ('cbr', None, c, a, b)
    if op == 'switch':
        v = p.tv(); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cs = []
        while not p.accept(']'):
            c = p.tv(); p.expect(','); p.expect('label'); cs.append((c[1][1], p.next()))
        return ('switch', None, v[0], v[1], d, cs)
    if op in BIN:
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'nnan', 'ninf', 'nsz', 'fast', 'reassoc', 'arcp', 'contract', 'afn'): p.next()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return ('bin', dst, op, t, a, b)
    if op in ('icmp', 'fcmp'):
        while p.peek() in ('samesign', 'nnan', 'ninf', 'nsz', 'fast'): p.next()
        pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return (op, dst, pr, t, a, b)
    if op in CASTS:
        p.accept('nneg') ; p.accept('nuw'); p.accept('nsw')
        t = p.type(); v = p.value(t); p.expect('to'); t2 = p.type()
        return ('cast', dst, op, t, v, t2)
    if op == 'fneg':
        t = p.type(); return ('fneg', dst, t, p.value(t))
    if op == 'phi':
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = p.next(); p.expect(']'); inc.append((l, v))
            if not p.accept(','): break
        return ('phi', dst, t, inc)
    if op == 'select':
        c = p.tv(); p.expect(','); a = p.tv(); p.expect(','); b = p.tv()
        return ('select', dst, c[0], c[1], a[0], a[1], b[1])
    if op == 'freeze':
        v = p.tv(); return ('freeze', dst, v[0], v[1])
    if op == 'extractvalue':
        v = p.tv(); ix = []
        while p.accept(','): ix.append(int(p.next()))
        return ('extractvalue', dst, v[0], v[1], ix)
    if op == 'insertvalue':
        v = p.tv(); p.expect(','); e = p.tv(); ix = []
        while p.accept(','): ix.append(int(p.next()))
        return ('insertvalue', dst, v[0], v[1], e[0], e[1], ix)
    if op == 'landingpad':
        t = p.type(); cleanup = p.accept('cleanup'); cl = []
        while p.i < len(p.t):
            w = p.next()
            if w == 'cleanup': cleanup = True; continue
            x = p.tv(); cl.append((w, x[1]))
        return ('landingpad', dst, cleanup, cl)
    if op == 'resume':
        v = p.tv(); return ('resume', None, v[1])
    if op == 'unreachable': return ('unreachable', None)
    if op == 'fence': return ('fence', None)
    if op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile')
        a = p.tv(); p.expect(','); c = p.tv(); p.expect(','); n = p.tv()
        return ('cmpxchg', dst, a[1], c[0], c[1], n[1])
    if op == 'atomicrmw':
        p.accept('volatile'); o = p.next(); a = p.tv(); p.expect(','); v = p.tv()
        return ('atomicrmw', dst, o, a[1], v[0], v[1])
    if op == 'va_arg' : return ('unsupported', dst, line)
    return ('unsupported', dst, line)

class Module:
    """One .ll file."""
    def __init__(self, path):
        self.path = path
        self.funcs = {}; self.types = {}; self.globals = {}; self.aliases = {}; self.decls = set(); self.ctors = []
        with open(path) as f: lines = f.read().split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                # header may have metadata; ends with '{'
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                name = '@' + m.group(1)
                self.funcs[name] = Function(name, l, lines[i+1:j], self)
                i = j + 1; continue
            if l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                self.globals[m.group(1)] = m.group(2)
            elif l.startswith('%') and ' = type ' in l:
                a, b = l.split(' = type ', 1)
                self.types[a] = b
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                if m: self.decls.add('@' + m.group(1))
            i += 1
        self.tcache = {}; self.szc = {}
        self.attr_coro = None
        # mark presplit coroutines: attribute group contains presplitcoroutine
        groups = {}
        for l in lines:
            if l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                groups[m.group(1)] = m.group(2)
        for f in self.funcs.values():
            ms = re.findall(r'(#\d+)', f.header)
            f.is_coro = any('presplitcoroutine' in groups.get(x, '') for x in ms)
    def named(self, n):
        t = self.tcache.get(n)
        if t is None:
            s = self.types[n]
            t = 'opaque' if s.strip() == 'opaque' else P(tokenize(s), self).type()
            self.tcache[n] = t
        return t
    def size_align(self, t):
        r = self.szc.get(t)
        if r is None:
            r = self._sa(t); self.szc[t] = r
        return r
    def _sa(self, t):
        if t == 'ptr' or t == 'double': return (8, 8)
        if t == 'float': return (4, 4)
        if t == 'void': return (0, 1)
        if t == 'x86_fp80' or t == 'fp128': return (16, 16)
        if t in ('opaque', 'token', 'label', 'metadata'): return (0, 1)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            s = 1
            while s < n: s *= 2
            return (s, min(s, 16))
        if k == 'arr':
            s, a = self.size_align(t[2]); return (s * t[1], a)
        if k == 'vec':
            s, a = self.size_align(t[2]); return (s * t[1], s * t[1])
        if k == 'named': return self.size_align(self.named(t[1]))
        if k == 'st':
            off = 0; al = 1
            for f in t[2]:
                s, a = self.size_align(f)
                if not t[1]:
                    off = (off + a - 1) // a * a; al = max(al, a)
                off += s
            if not t[1]: off = (off + al - 1) // al * al
            return (off, al)
        raise Exception('size of %r' % (t,))
    def size(self, t): return self.size_align(t)[0]
    def res(self, t):
        while isinstance(t, tuple) and t[0] == 'named': t = self.named(t[1])
        return t
    def field(self, t, i):
        """(offset, type) of field i of aggregate t"""
        t = self.res(t)
        if t[0] in ('arr', 'vec'): return (i * self.size(t[2]), t[2])
        off = 0
        for j, f in enumerate(t[2]):
            s, a = self.size_align(f)
            if not t[1]: off = (off + a - 1) // a * a
            if j == i: return (off, f)
            off += s
        raise IndexError

if __name__ == '__main__':
    import time
    t0 = time.time()
    m = Module(sys.argv[1])
    t1 = time.time(); print(len(m.funcs), 'functions', t1 - t0)
    k = 0; un = {}
    for f in m.funcs.values():
        f.parse()
        for b in f.blocks.values():
            for ins in b:
                k += 1
                if ins[0] == 'unsupported': un[ins[2]] = 1
    print(k, 'insts', time.time() - t1, list(un)[:10])
    for g, s in list(m.globals.items()):
        pass

"""Symbolic executor / VC generator over clang IR."""
import os, sys, time, z3, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ir import Module, Function
import sym, lia
from sym import UNDEF, SAddr, Comp, OpaqueFloat, Unsupported, bv, fold, is_sym

sys.setrecursionlimit(20000)
MASK = {n: (1 << n) - 1 for n in range(0, 129)}
CELLMAX = 16

class PathEnd(Exception): pass           # path finished/pruned normally
class Refuted(Exception):                # obligation refuted on this path
    def __init__(self, name, detail='', model=None):
        self.name = name; self.detail = detail; self.model = model

class Fork:
    """returned by externs: alternatives [(cond|None, value, trace-entry|None)]"""
    def __init__(self, alts): self.alts = alts

class Obj:
    __slots__ = ('id', 'size', 'kind', 'cells', 'zero', 'live', 'name', 'arr', 'model', 'ro')
    def __init__(self, id, size, kind, name=''):
        self.id = id; self.size = size; self.kind = kind; self.cells = {}; self.zero = False
        self.live = True; self.name = name; self.arr = None; self.model = False; self.ro = False
    def copy(self):
        o = Obj.__new__(Obj)
        o.id = self.id; o.size = self.size; o.kind = self.kind; o.cells = dict(self.cells); o.zero = self.zero
        o.live = self.live; o.name = self.name; o.arr = self.arr; o.model = self.model; o.ro = self.ro
        return o

class Act:
    __slots__ = ('fn', 'env', 'code', 'blk', 'idx', 'prev', 'allocas', 'frame', 'ramp', 'hook', 'saved', 'visits', 'byval')
    def __init__(self, fn):
        self.fn = fn; self.env = {}; self.blk = fn.entry; self.code = fn.blocks[fn.entry]; self.idx = 0; self.prev = None
        self.allocas = []; self.frame = None; self.ramp = False; self.hook = None; self.saved = None; self.visits = None
    def copy(self):
        a = Act.__new__(Act)
        a.fn = self.fn; a.env = dict(self.env); a.blk = self.blk; a.code = self.code; a.idx = self.idx; a.prev = self.prev
        a.allocas = self.allocas if self.frame else list(self.allocas); a.frame = self.frame; a.ramp = self.ramp; a.hook = self.hook
        a.saved = self.saved; a.visits = dict(self.visits) if self.visits else None
        return a

class CF:
    """coroutine frame"""
    __slots__ = ('addr', 'fn', 'promise', 'poff', 'susp', 'final', 'destroyed', 'allocas', 'gen')
    def copy(self):
        c = CF.__new__(CF)
        for k in CF.__slots__: setattr(c, k, getattr(self, k))
        return c

class State:
    __slots__ = ('objs', 'own', 'stack', 'cfs', 'prom', 'excs', 'caught', 'pc', 'pcids', 'trace', 'silent', 'forks', 'steps', 'covers', 'cuts', 'nobj')
    def __init__(self):
        self.objs = {}; self.own = set(); self.stack = []; self.cfs = {}; self.prom = {}; self.excs = {}; self.caught = []
        self.pc = []; self.pcids = set(); self.trace = []; self.silent = 0; self.forks = 0; self.steps = 0; self.covers = frozenset(); self.cuts = ()
        self.nobj = 0
    def clone(self):
        s = State.__new__(State)
        s.objs = dict(self.objs); s.own = set(); self.own = set()
        s.stack = [a.copy() for a in self.stack]
        s.cfs = {k: v.copy() for k, v in self.cfs.items()}
        s.prom = dict(self.prom)
        s.excs = {k: dict(v) for k, v in self.excs.items()}; s.caught = list(self.caught)
        s.pc = list(self.pc); s.pcids = set(self.pcids); s.trace = list(self.trace)
        s.silent = self.silent; s.forks = self.forks; s.steps = self.steps; s.covers = self.covers; s.cuts = self.cuts; s.nobj = self.nobj
        return s

class Engine:
    def __init__(self, modules, limits=None):
        import externs, cuts
        self.mods = modules
        self.ext = externs.TABLE; self.extpre = externs.PREFIX; self.extovr = externs.OVERRIDE; self.ovr = {}
        self.cutmod = cuts
        self.limits = dict(steps=40_000_000, path_steps=600_000, time=700, paths=1_000_000)
        if limits: self.limits.update(limits)
        self.defs = {}       # global name -> Function
        self.local = {}      # (modid, name) -> Function
        self.gdefs = {}
        for mi, m in enumerate(modules):
            m.id = mi
            for n, f in m.funcs.items():
                h = f.header
                if ' internal ' in h[:60] or ' private ' in h[:60]: self.local[(mi, n)] = f
                elif n not in self.defs or (self._weak(self.defs[n]) and not self._weak(f) and self.defs[n].mod.id == mi): self.defs[n] = f
            for n, g in m.globals.items():
                if g.startswith('internal') or g.startswith('private'): self.gdefs[(mi, n)] = (m, g)
                else:
                    old = self.gdefs.get(n)
                    if old is None or (old[1].startswith('external') and not g.startswith('external')): self.gdefs[n] = (m, g)
        self.modelmods = set()
        self.gaddr = {}      # key -> addr
        self.faddr = {}      # id -> ('fn', Function) | ('ext', name)
        self.gobj = {}       # id -> template Obj
        self.nextid = 16
        self.solver_time = 0.0; self.nq = 0
        self.vc = {'folded': 0, 'z3': 0}
        self.named = {}      # obligation name -> instances discharged
        self.impl = set()    # implicit obligation sites
        self.refuted = []    # dicts
        self.undecided = []
        self.covered = set()
        self.funcs_seen = set(); self.ext_seen = set()
        self.paths = 0; self.total_steps = 0
        self.work = []
        self.tid = {}        # typeinfo addr -> selector id
        self.qcache = {}
        self.strcache = {}
        self.t0 = time.time()
        self.dump = None     # list for smt2 dumps
        self.bounded = []    # notes of bounded exploration
        self.invs = []       # inferred invariants
        self.loopcuts = set() # vq_loop() points passed

    @staticmethod
    def _weak(f):
        h = f.header[:80]
        return 'linkonce' in h or 'weak' in h

    # ---------- addresses ----------
    def newid(self):
        self.nextid += 1; return self.nextid
    def gkey(self, mod, name):
        k = (mod.id, name)
        if k in self.gdefs or k in self.local: return k
        return name
    def addr_of(self, mod, name):
        k = self.gkey(mod, name)
        a = self.gaddr.get(k)
        if a is not None: return a
        i = self.newid(); a = i << 32
        self.gaddr[k] = a
        f = self.local.get(k) if isinstance(k, tuple) else self.defs.get(k)
        if f is not None:
            self.faddr[i] = ('fn', f); return a
        g = self.gdefs.get(k)
        if g is None:
            if name in mod.aliases: pass
            self.faddr[i] = ('ext', name); return a
        m, text = g
        # alias?
        import re
        if re.match(r'(?:[a-z_]+ )*alias ', text):
            tgt = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\s*$', text.split(', partition')[0]).group(1)
            ta = self.addr_of(m, tgt); self.gaddr[k] = ta; return ta
        o = Obj(i, 0, 'global', name); self.gobj[i] = o
        self._init_global(o, m, text)
        return a
    def _init_global(self, o, m, text):
        from ir import P, tokenize
        t = text
        toks = tokenize(t); p = P(toks, m)
        ext = False
        while True:
            w = p.peek()
            if w in ('global', 'constant'): o.ro = (w == 'constant'); p.next(); break
            if w == 'external': ext = True
            if w == 'thread_local' and p.peek(1) == '(':
                p.next(); p.next(); p.next(); p.next(); continue
            if w == 'addrspace': p.i += 4; continue
            p.next()
        ty = p.type()
        try: o.size = m.size(ty)
        except Exception: o.size = 64
        if ext or p.peek() is None or p.peek() == ',':
            o.name += ' (external)'; o.ro = False
            if o.size == 0: o.size = 64
            o.cells = {}; o.kind = 'extglobal'
            return
        self._put_const(o, 0, ty, p.value(ty), m)
        return
    def _put_const(self, o, off, ty, c, m):
        k = c[0]
        if k == 'zero':
            n = m.size(ty)
            if off == 0 and n == o.size: o.zero = True; return
            for j in range(0, n - n % 8, 8): o.cells[off + j] = (8, 0)
            for j in range(n - n % 8, n): o.cells[off + j] = (1, 0)
            return
        if k == 'bytes':
            for j, b in enumerate(c[1]): o.cells[off + j] = (1, b)
            return
        if k == 'agg':
            for j, (t, v, _) in enumerate(c[1]):
                fo, ft = m.field(ty, j)
                self._put_const(o, off + fo, ft, v, m)
            return
        if k == 'undef': return
        v = self.const(c, ty, m)
        o.cells[off] = (m.size(ty), v)
    def const(self, c, ty, m):
        k = c[0]
        if k == 'c':
            if isinstance(ty, tuple) and ty[0] == 'i': return c[1] & MASK[ty[1]]
            return c[1] & MASK[64]
        if k == 'g': return self.addr_of(m, c[1])
        if k == 'f': return c[1]
        if k == 'undef': return UNDEF
        if k == 'zero':
            t = m.res(ty)
            if isinstance(t, tuple) and t[0] in ('st',): return tuple(self.const(('zero',), x, m) for x in t[2])
            if isinstance(t, tuple) and t[0] == 'arr': return tuple(self.const(('zero',), t[2], m) for _ in range(t[1]))
            if t in ('double', 'float'): return 0.0
            return 0
        if k == 'agg': return tuple(self.const(v, t, m) for t, v, _ in c[1])
        if k == 'gep':
            base = self.const(c[2][0][1], 'ptr', m)
            off = 0; t = c[1]
            for j, (it, iv, _) in enumerate(c[2][1:]):
                x = self.const(iv, it, m)
                if isinstance(it, tuple): x = sym.sgn(x, it[1])
                if j == 0: off += x * m.size(t)
                else:
                    tt = m.res(t)
                    if tt[0] in ('arr', 'vec'): off += x * m.size(tt[2]); t = tt[2]
                    else:
                        fo, t = m.field(tt, x); off += fo
            return (base + off) & MASK[64]
        if k == 'cast':
            v = self.const(c[3], c[2], m)
            if c[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                if c[1] == 'ptrtoint' and isinstance(c[4], tuple) and c[4][1] < 64: return v & MASK[c[4][1]]
                return v
            return sym.cast(c[1], c[2][1], v, c[4][1])
        if k == 'bin': return sym.binop(c[1], c[2][1], self.const(c[3], c[2], m), self.const(c[4], c[2], m))
        if k == 'meta': return 0
        raise Unsupported('constant %r' % (c,))

    # ---------- objects ----------
    def obj(self, st, i):
        o = st.objs.get(i)
        if o is None: o = self.gobj.get(i)
        return o
    def wobj(self, st, i):
        if i in st.own: return st.objs[i]
        o = st.objs.get(i) or self.gobj[i]
        o = o.copy(); st.objs[i] = o; st.own.add(i)
        return o
    def alloc(self, st, size, kind, name=''):
        i = self.newid()
        o = Obj(i, size, kind, name); o.model = st.silent > 0
        st.objs[i] = o; st.own.add(i)
        return i << 32
    def describe(self, st, a):
        if isinstance(a, SAddr): return 'object %s at symbolic offset' % self.describe(st, a.base)
        if not isinstance(a, int): return str(a)
        o = self.obj(st, a >> 32)
        return ('%s %s+%d' % (o.kind, o.name, a & 0xffffffff)) if o else hex(a)

    def access(self, st, a, size, what):
        """returns (objid, off) for a concrete, valid address"""
        if not isinstance(a, int):
            if a is UNDEF: raise Refuted('memory-safety', what + ' through an uninitialised pointer')
            raise Unsupported('%s through symbolic pointer %r' % (what, a))
        i = a >> 32; off = a & 0xffffffff
        o = st.objs.get(i) or self.gobj.get(i)
        if o is None:
            if i == 0: raise Refuted('memory-safety', what + ' through a null pointer (%#x)' % a)
            if i in self.faddr: raise Refuted('memory-safety', what + ' through a function pointer ' + str(self.faddr[i][1]))
            raise Refuted('memory-safety', what + ' of an object that no longer exists (%#x)' % a)
        if not o.live: raise Refuted('memory-safety', '%s of a dead object: %s %s+%d' % (what, o.kind, o.name, off))
        if o.arr is None and off + size > o.size and size: raise Refuted('memory-safety', '%s out of bounds: %s %s+%d (size %s)' % (what, o.kind, o.name, off, o.size))
        return i, off

    def arr_access(self, st, a, size, what):
        base = a.base if isinstance(a, SAddr) else a & ~0xffffffff
        o = self.obj(st, base >> 32)
        if o is None or not o.live: raise Refuted('memory-safety', what + ' of a dead array')
        if o.arr is None: raise Unsupported('symbolic offset into ' + o.kind + ' ' + o.name)
        if size != 8: raise Unsupported('array access size %d' % size)
        off = a.off if isinstance(a, SAddr) else z3.BitVecVal(a & 0xffffffff, 64)
        if isinstance(a, SAddr) and a.base & 0xffffffff: off = off + (a.base & 0xffffffff)
        n = bv(o.size, 64)
        self.prove(st, z3.And(z3.ULE(off + 8, n), z3.ULE(off, n), z3.URem(off, z3.BitVecVal(8, 64)) == 0), 'memory-safety', what + ' within array bounds')
        return base >> 32, fold(z3.LShR(off, 3))

    def is_arr(self, st, a):
        if isinstance(a, SAddr): return True
        if isinstance(a, int):
            o = st.objs.get(a >> 32)
            return o is not None and o.arr is not None
        return False

    def read(self, st, a, size):
        if self.is_arr(st, a):
            i, ix = self.arr_access(st, a, size, 'read')
            return fold(z3.Select(self.obj(st, i).arr, bv(ix, 64)))
        i, off = self.access(st, a, size, 'read')
        o = st.objs.get(i) or self.gobj[i]
        c = o.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        if o.kind == 'extglobal': raise Unsupported('read of external global ' + o.name)
        return self.read_slow(o, off, size)
    def read_slow(self, o, off, size):
        pieces = []; p = off; end = off + size; cells = o.cells
        while p < end:
            c = cells.get(p)
            if c is None:
                # maybe inside an earlier cell
                found = None
                for q in range(p - 1, max(-1, p - CELLMAX), -1):
                    cc = cells.get(q)
                    if cc is not None:
                        if q + cc[0] > p: found = (q, cc)
                        break
                if found:
                    q, cc = found
                    ln = min(q + cc[0], end) - p
                    pieces.append((ln, sym.piece(cc[1], cc[0], p - q, ln))); p += ln
                else:
                    # gap until next cell
                    e = p + 1
                    while e < end and e not in cells: e += 1
                    pieces.append((e - p, 0 if o.zero else UNDEF)); p = e
            else:
                ln = min(c[0], end - p)
                pieces.append((ln, sym.piece(c[1], c[0], 0, ln))); p += ln
        return sym.combine(pieces)
    def write(self, st, a, size, v):
        if self.is_arr(st, a):
            i, ix = self.arr_access(st, a, size, 'write')
            o = self.wobj(st, i); o.arr = z3.simplify(z3.Store(o.arr, bv(ix, 64), bv(v, 64))); return
        i, off = self.access(st, a, size, 'write')
        o = self.wobj(st, i)
        if o.ro: raise Refuted('memory-safety', 'write to constant ' + o.name)
        self.write_cell(o, off, size, v)
    def write_cell(self, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != size:
            # clear overlaps
            for q in range(off - CELLMAX + 1, off + size):
                cc = cells.get(q)
                if cc is not None and q + cc[0] > off:
                    del cells[q]
                    if q < off:
                        self._split_put(cells, q, cc, q, off)
                    if q + cc[0] > off + size:
                        self._split_put(cells, q, cc, off + size, q + cc[0])
        if isinstance(v, Comp):
            if c is not None and c[0] == size: del cells[off]
            p = off
            for s, x in v.pieces:
                cells[p] = (s, x); p += s
            return
        if size > CELLMAX: raise Unsupported('cell of %d bytes' % size)
        cells[off] = (size, v)
    def _split_put(self, cells, q, cc, a, b):
        p = sym.piece(cc[1], cc[0], a - q, b - a)
        if isinstance(p, Comp):
            for s, x in p.pieces: cells[a] = (s, x); a += s
        else: cells[a] = (b - a, p)

    def load_typed(self, st, a, ty, m):
        t = m.res(ty)
        if isinstance(t, tuple) and t[0] in ('st', 'arr', 'vec'):
            n = len(t[2]) if t[0] == 'st' else t[1]
            return tuple(self.load_typed(st, self.padd(a, m.field(t, j)[0]), m.field(t, j)[1], m) for j in range(n))
        v = self.read(st, a, m.size(t))
        if t in ('double', 'float') and isinstance(v, int):
            v = struct.unpack('<d' if t == 'double' else '<f', v.to_bytes(8 if t == 'double' else 4, 'little'))[0]
        elif isinstance(v, float):
            if t not in ('double', 'float'): v = int.from_bytes(struct.pack('<d' if m.size(t) == 8 else '<f', v), 'little')
        elif t == ('i', 1): v = sym.cast('trunc', 8, v, 1)
        return v
    def store_typed(self, st, a, ty, v, m):
        t = m.res(ty)
        if isinstance(t, tuple) and t[0] in ('st', 'arr', 'vec'):
            n = len(t[2]) if t[0] == 'st' else t[1]
            if v is UNDEF: v = (UNDEF,) * n
            for j in range(n):
                fo, ft = m.field(t, j)
                self.store_typed(st, self.padd(a, fo), ft, v[j], m)
            return
        if isinstance(v, z3.BoolRef): v = bv(v, 8 * m.size(t))
        self.write(st, a, m.size(t), v)
    def padd(self, a, k):
        if k == 0: return a
        if isinstance(a, int): return (a + k) & MASK[64]
        return sym.binop('add', 64, a, k & MASK[64])
    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0: return
        if self.is_arr(st, d) or self.is_arr(st, s):
            if isinstance(n, int) and n == 8: self.write(st, d, 8, self.read(st, s, 8)); return
            return self.memcpy_arr(st, d, s, n)
        if not isinstance(n, int): raise Unsupported('memcpy of symbolic length')
        si, so = self.access(st, s, n, 'read'); di, do = self.access(st, d, n, 'write')
        o = self.obj(st, si); end = so + n
        items = []
        p = so
        if n > 4096:
            keys = sorted(k for k in o.cells if so - CELLMAX < k < end)
        else:
            keys = [k for k in range(so - CELLMAX + 1, end) if k in o.cells]
        for k in keys:
            sz, v = o.cells[k]
            a = max(k, so); b = min(k + sz, end)
            if a >= b: continue
            if a > p: items.append((p, a - p, None))
            items.append((a, b - a, sym.piece(v, sz, a - k, b - a))); p = b
        if p < end: items.append((p, end - p, None))
        w = self.wobj(st, di)
        if w.ro: raise Refuted('memory-safety', 'memcpy into constant')
        for a, ln, v in items:
            t = do + (a - so)
            if v is None:
                fill = 0 if o.zero else UNDEF
                while ln > 0:
                    k = 8 if ln >= 8 and t % 8 == 0 else 1
                    self.write_cell(w, t, k, fill); t += k; ln -= k
            else: self.write_cell(w, t, ln, v)
    def memcpy_arr(self, st, d, s, n):
        # whole-array relocation: element k of the source becomes element k of the destination
        db = d.base if isinstance(d, SAddr) else d; sb = s.base if isinstance(s, SAddr) else s
        so = self.obj(st, sb >> 32); do = self.obj(st, db >> 32)
        def off(a):
            return a.off if isinstance(a, SAddr) else z3.BitVecVal(a & 0xffffffff, 64)
        if so is None or do is None or not so.live or not do.live: raise Refuted('memory-safety', 'memcpy of dead object')
        if so.arr is None or do.arr is None: raise Unsupported('memcpy between array and plain object')
        nn = bv(n, 64)
        self.prove(st, z3.And(z3.ULE(off(s) + nn, bv(so.size, 64)), z3.ULE(off(d) + nn, bv(do.size, 64))), 'memory-safety', 'memcpy within array bounds')
        w = self.wobj(st, db >> 32)
        k = z3.BitVec('k!idx', 64); dn = z3.LShR(off(d), 3); sn = z3.LShR(off(s), 3); cnt = z3.LShR(nn, 3)
        w.arr = z3.Lambda([k], z3.If(z3.And(z3.UGE(k, dn), z3.ULT(k - dn, cnt)), z3.Select(so.arr, k - dn + sn), z3.Select(do.arr, k)))
    # ---------- solver ----------
    def check(self, st, extra, full=20000):
        """sat/unsat/unknown of pc & extra"""
        if isinstance(extra, int):
            if not extra: return 'unsat', None
            extra = z3.BoolVal(True)
        key = (extra.get_id(), len(st.pc), st.pc[-1].get_id() if st.pc else 0, hash(tuple(c.get_id() for c in st.pc)))
        r = self.qcache.get(key)
        if r is not None: return r[0], r[1]
        t = time.time()
        s = z3.Solver(); s.set('timeout', 300)
        for c in st.pc: s.add(c)
        s.add(extra)
        if self.dump is not None: self.dump.append((s.to_smt2(), None))
        if lia.sums(extra) and lia.unsat(st.pc, extra): r = z3.unsat; self.nlia = getattr(self, 'nlia', 0) + 1
        else:
            r = s.check()
            if r == z3.unknown:
                if lia.unsat(st.pc, extra): r = z3.unsat; self.nlia = getattr(self, 'nlia', 0) + 1
                else: s.set('timeout', full); r = s.check()
        self.solver_time += time.time() - t; self.nq += 1
        rs = str(r); m = s.model() if rs == 'sat' else None
        if self.dump is not None: self.dump[-1] = (self.dump[-1][0], rs)
        self.qcache[key] = (rs, m, extra, list(st.pc))
        return rs, m
    def feasible(self, st, cond):
        if isinstance(cond, int): return bool(cond)
        return self.check(st, cond)[0] != 'unsat'
    def assume(self, st, cond):
        if isinstance(cond, int):
            if not cond: raise PathEnd()
            return
        if cond.get_id() in st.pcids: return
        st.pc.append(cond); st.pcids.add(cond.get_id())
    def prove(self, st, cond, name, detail=''):
        if not isinstance(cond, int): cond = fold(cond)
        if isinstance(cond, int):
            self.vc['folded'] += 1
            if not cond: raise Refuted(name, detail)
            return
        if cond.get_id() in st.pcids: self.vc['folded'] += 1; return
        r, m = self.check(st, z3.Not(cond))
        if r == 'unsat': self.vc['z3'] += 1; return
        if r == 'sat':
            e = Refuted(name, detail, m); e.cond = cond; raise e
        raise Unsupported('solver answered unknown for ' + name)
    def div_scaled(self, st, n, a, c):
        """(k * x) / c for constants k, c one of which divides the other, when k * x provably does not overflow"""
        a = fold(a)
        if not z3.is_bv(a) or not z3.is_app_of(a, z3.Z3_OP_BMUL) or a.num_args() != 2 or not z3.is_bv_value(a.arg(0)): return None
        k = sym.sgn(a.arg(0).as_long(), n); x = a.arg(1); c = sym.sgn(c & MASK[n], n)
        if k <= 0 or c <= 0 or (k % c and c % k): return None
        lim = ((1 << (n - 1)) - 1) // k
        if self.check(st, z3.Or(x > lim, x < -lim))[0] != 'unsat': return None
        if k % c == 0: return sym.binop('mul', n, x, k // c)
        return sym.binop('sdiv', n, x, c // k)
    def concretize(self, st, v, n=64, limit=64):
        """fork-free: value must be uniquely determined"""
        if isinstance(v, int): return v
        r, m = self.check(st, z3.BoolVal(True))
        if r == 'sat':
            k = m.eval(v, model_completion=True).as_long()
            if self.check(st, v != k)[0] == 'unsat': return k
        raise Unsupported('symbolic value where a concrete one is needed: %s' % v)

    # ---------- evaluation ----------
    def ev(self, act, o, ty):
        if o[0] == 'l':
            try: return act.env[o[1]]
            except KeyError: raise Unsupported('use of undefined SSA value %s in %s' % (o[1], act.fn.name))
        if o[0] == 'c':
            if ty == 'ptr': return o[1]
            return o[1] & MASK[ty[1]]
        return self.const(o, ty, act.fn.mod)

    # ---------- running ----------
    def call_function(self, st, fn, args, hook=None):
        fn.parse()
        act = Act(fn); act.hook = hook
        for (t, n, a), v in zip(fn.params, args):
            if 'byval' in a:
                sz = fn.mod.size(a['byval'])
                p = self.alloc(st, sz, 'alloca', fn.name + n + ' (byval)'); act.allocas.append(p >> 32)
                self.memcpy(st, p, v, sz); v = p
            act.env[n] = v
        if len(args) < len(fn.params): raise Unsupported('arity of ' + fn.name)
        st.stack.append(act)
        self.funcs_seen.add(fn.name)
        return act

    def run_harness(self, name):
        st = State()
        # dynamic initialisers
        todo = []
        for m in self.mods:
            for n, f in m.funcs.items():
                if n.startswith('@_GLOBAL__sub_I_'): todo.append(f)
        fn = self.defs.get('@' + name)
        if fn is None: raise Unsupported('no contract function ' + name)
        self.work = w = []
        for f in todo: # one after another, each to its end
            self.call_function(st, f, [])
            try:
                while st.stack: self.step(st)
            except PathEnd: raise Unsupported('initialiser ended: ' + f.name)
            if w: raise Unsupported('initialiser forks: ' + f.name)
        self.call_function(st, fn, [])
        self.explore([st])
        return self

    def explore(self, work):
        """Run all paths of the worklist. Appends to self.refuted / self.undecided."""
        while work:
            st = work.pop()
            self.run_path(st, work)
            if len(self.refuted) >= 3: return
            if time.time() - self.t0 > self.limits['time']: raise Unsupported('time limit')
            if self.paths > self.limits['paths']: raise Unsupported('path limit')

    def run_path(self, st, work):
        self.work = work
        step = self.step
        try:
            n = 0
            while st.stack:
                step(st)
                n += 1
                if n & 1023 == 0:
                    st.steps += 1024; self.total_steps += 1024
                    if st.steps > self.limits['path_steps']: raise Unsupported('path step limit (%d) in %s' % (st.steps, st.stack[-1].fn.name))
                    if self.total_steps > self.limits['steps']: raise Unsupported('step limit')
                    if time.time() - self.t0 > self.limits['time']: raise Unsupported('time limit')
            self.total_steps += n & 1023
            self.paths += 1
        except PathEnd:
            self.paths += 1
        except Refuted as e:
            self.paths += 1
            self.report(st, e)
        except Unsupported as e:
            e.where = self.where(st)
            raise

    def where(self, st):
        return ' < '.join('%s%s' % (a.fn.name, a.blk) for a in reversed(st.stack[-8:]))

    def report(self, st, e):
        model = e.model
        if model is None:
            r, model = self.check(st, z3.BoolVal(True))
            if r == 'unsat': return   # infeasible path: not a counterexample
        tr = []
        for kind, nm, v in st.trace:
            if isinstance(v, z3.BoolRef): x = int(z3.is_true(model.eval(v, model_completion=True)))
            elif is_sym(v): x = model.eval(v, model_completion=True).as_long()
            else: x = v
            tr.append([kind, nm, x])
        self.refuted.append(dict(name=e.name, detail=e.detail, where=self.where(st), trace=tr, widened=any(c[0] == 'widened' for c in st.cuts)))

    # control transfer
    def jump(self, st, act, label):
        act.prev = act.blk; act.blk = label
        code = act.fn.blocks[label]
        act.code = code; act.idx = 0
        # phis evaluated simultaneously
        if code[0][0] == 'phi':
            vals = []
            k = 0
            for ins in code:
                if ins[0] != 'phi': break
                for l, v in ins[3]:
                    if l == act.prev:
                        vals.append((ins[1], self.ev(act, v, ins[2]))); break
                else: raise Unsupported('phi without edge')
                k += 1
            for d, v in vals: act.env[d] = v
            act.idx = k
        lh = act.fn.loopheads
        if lh is None: lh = self.cutmod.heads(act.fn)
        if label in lh: self.cutmod.on_block(self, st, act, label)

    def ret(self, st, v):
        act = st.stack.pop()
        if act.frame is None:
            for i in act.allocas: st.objs.pop(i, None); st.own.discard(i)
        elif act.ramp and st.cfs[act.frame].destroyed:
            pass
        if act.hook is not None:
            act.hook(self, st, v); return
        if st.stack: self.finish_call(st, v)

    def finish_call(self, st, v):
        act = st.stack[-1]
        ins = act.code[act.idx]
        if ins[1] is not None: act.env[ins[1]] = v
        if ins[0] == 'invoke': self.jump(st, act, ins[5])
        else: act.idx += 1

    def step(self, st):
        act = st.stack[-1]
        ins = act.code[act.idx]
        op = ins[0]
        env = act.env
        if op == 'load':
            a = self.ev(act, ins[3], 'ptr')
            self.impl.add(id(ins))
            env[ins[1]] = self.load_typed(st, a, ins[2], act.fn.mod)
        elif op == 'store':
            v = self.ev(act, ins[3], ins[2]); a = self.ev(act, ins[4], 'ptr')
            self.impl.add(id(ins))
            self.store_typed(st, a, ins[2], v, act.fn.mod)
        elif op == 'gep':
            env[ins[1]] = self.gep(st, act, ins)
        elif op == 'call' or op == 'invoke':
            self.do_call(st, act, ins); return
        elif op == 'br':
            self.jump(st, act, ins[2]); return
        elif op == 'cbr':
            c = self.ev(act, ins[2], ('i', 1))
            if not isinstance(c, int):
                if c is UNDEF: raise Refuted('uninitialised-value', 'branch on an uninitialised value in ' + act.fn.name)
                c = sym.boolv(c) if not isinstance(c, z3.BoolRef) else c
                c = fold(c)
            if isinstance(c, int): tgt = ins[3] if c & 1 else ins[4]
            else:
                ct = self.feasible(st, c); cf = self.feasible(st, z3.Not(c))
                if ct and cf:
                    st.forks += 1
                    s2 = st.clone(); self.assume(s2, fold(z3.Not(c)))
                    a2 = s2.stack[-1]
                    self.work.append(s2)
                    self.pending_branch(s2, a2, ins[4])
                    self.assume(st, c); tgt = ins[3]
                elif ct: tgt = ins[3]
                elif cf: tgt = ins[4]
                else: raise PathEnd()
            if act.saved is not None: self.after_await(st, act, tgt)
            self.jump(st, act, tgt); return
        elif op == 'alloca':
            t = ins[2]; n = 1
            if ins[3]: n = self.concretize(st, self.ev(act, ins[3][1], ins[3][0]))
            p = self.alloc(st, act.fn.mod.size(t) * n, 'alloca', act.fn.name + ':' + ins[1])
            act.allocas.append(p >> 32); env[ins[1]] = p
            if ins[1] in self.lifetimes(act.fn): st.objs[p >> 32].live = False
        elif op == 'icmp':
            t = ins[3]; n = 64 if t == 'ptr' else t[1]
            env[ins[1]] = sym.icmp(ins[2], n, self.ev(act, ins[4], t), self.ev(act, ins[5], t))
        elif op == 'bin':
            t = ins[3]; a = self.ev(act, ins[4], t); b = self.ev(act, ins[5], t)
            if isinstance(t, tuple) and t[0] == 'i':
                if ins[2] in ('sdiv', 'udiv', 'srem', 'urem'):
                    if is_sym(b): self.prove(st, b != 0, 'arithmetic', 'division by zero in ' + act.fn.name)
                    elif b == 0: raise Refuted('arithmetic', 'division by zero')
                r = self.div_scaled(st, t[1], a, b) if ins[2] == 'sdiv' and isinstance(b, int) and z3.is_bv(a) else None
                env[ins[1]] = sym.binop(ins[2], t[1], a, b) if r is None else r
            else: env[ins[1]] = self.fbin(ins[2], a, b)
        elif op == 'cast':
            env[ins[1]] = self.do_cast(ins, self.ev(act, ins[4], ins[3]))
        elif op == 'ret':
            v = None if ins[2] is None else self.ev(act, ins[3], ins[2])
            self.ret(st, v); return
        elif op == 'extractvalue':
            v = self.ev(act, ins[3], ins[2])
            for k in ins[4]: v = v[k] if v is not UNDEF else UNDEF
            env[ins[1]] = v
        elif op == 'insertvalue':
            v = self.ev(act, ins[3], ins[2]); e = self.ev(act, ins[5], ins[4])
            env[ins[1]] = self.insert(act.fn.mod, ins[2], v, e, ins[6])
        elif op == 'switch':
            v = self.ev(act, ins[3], ins[2]); n = ins[2][1]
            if v is UNDEF: raise Refuted('uninitialised-value', 'switch on an uninitialised value in ' + act.fn.name)
            if isinstance(v, Comp): v = fold(bv(v, n))
            if isinstance(v, int):
                for c, l in ins[5]:
                    if c & MASK[n] == v: self.jump(st, act, l); return
                self.jump(st, act, ins[4]); return
            v = bv(v, n)
            alts = [(v == (c & MASK[n]), l) for c, l in ins[5]]
            alts.append((z3.And(*[v != (c & MASK[n]) for c, l in ins[5]]) if ins[5] else z3.BoolVal(True), ins[4]))
            alts = [(c, l) for c, l in alts if self.feasible(st, c)]
            if not alts: raise PathEnd()
            if len(alts) > 1: st.forks += 1
            for c, l in alts[1:]:
                s2 = st.clone(); self.assume(s2, fold(c)); self.work.append(s2); self.jump(s2, s2.stack[-1], l)
            self.assume(st, fold(alts[0][0])); self.jump(st, act, alts[0][1]); return
        elif op == 'select':
            c = self.ev(act, ins[3], ins[2]); a = self.ev(act, ins[5], ins[4]); b = self.ev(act, ins[6], ins[4])
            if is_sym(c): c = fold(c)
            if isinstance(c, int): env[ins[1]] = a if c & 1 else b
            elif c is UNDEF: raise Refuted('uninitialised-value', 'select on an uninitialised value')
            else:
                t = ins[4]
                if isinstance(t, tuple) and t[0] == 'i' and all(isinstance(x, (int, z3.ExprRef)) for x in (a, b)):
                    if t[1] == 1:
                        f = lambda x: z3.BoolVal(bool(x)) if isinstance(x, int) else x
                        env[ins[1]] = fold(z3.If(c, f(a), f(b)))
                    else: env[ins[1]] = fold(z3.If(c, bv(a, t[1]), bv(b, t[1])))
                else:
                    ct = self.feasible(st, c); cf = self.feasible(st, z3.Not(c))
                    if ct and cf:
                        st.forks += 1
                        s2 = st.clone(); self.assume(s2, fold(z3.Not(c))); s2.stack[-1].env[ins[1]] = b; s2.stack[-1].idx += 1
                        self.work.append(s2); self.assume(st, c); env[ins[1]] = a
                    else: env[ins[1]] = a if ct else b
        elif op == 'landingpad' or op == 'phi':
            pass # values set on entry
        elif op == 'resume':
            v = self.ev(act, ins[2], None)
            self.leave_for_unwind(st)
            self.unwind(st, v[0]); return
        elif op == 'freeze':
            v = self.ev(act, ins[3], ins[2])
            if v is UNDEF: v = sym.fresh('frz', ins[2][1])
            env[ins[1]] = v
        elif op == 'unreachable':
            raise Refuted('unreachable-code', 'unreachable instruction executed in ' + act.fn.name)
        elif op == 'atomicrmw':
            a = self.ev(act, ins[3], 'ptr'); v = self.ev(act, ins[5], ins[4]); n = 64 if ins[4] == 'ptr' else ins[4][1]
            old = self.load_typed(st, a, ins[4], act.fn.mod)
            o = ins[2]
            if o == 'xchg': new = v
            elif o in ('add', 'sub', 'and', 'or', 'xor'): new = sym.binop(o, n, old, v)
            else: raise Unsupported('atomicrmw ' + o)
            if old is UNDEF: raise Refuted('uninitialised-value', 'atomic update of uninitialised memory in ' + act.fn.name)
            self.store_typed(st, a, ins[4], new, act.fn.mod); env[ins[1]] = old
        elif op == 'cmpxchg':
            a = self.ev(act, ins[2], 'ptr'); c = self.ev(act, ins[4], ins[3]); n = self.ev(act, ins[5], ins[3])
            old = self.load_typed(st, a, ins[3], act.fn.mod)
            e = sym.icmp('eq', 64 if ins[3] == 'ptr' else ins[3][1], old, c)
            if not isinstance(e, int): raise Unsupported('symbolic cmpxchg')
            if e: self.store_typed(st, a, ins[3], n, act.fn.mod)
            env[ins[1]] = (old, e)
        elif op == 'fcmp':
            a = self.ev(act, ins[4], ins[3]); b = self.ev(act, ins[5], ins[3])
            if isinstance(a, float) and isinstance(b, float):
                k = ins[2]; env[ins[1]] = int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k[1:]])
            else: raise Unsupported('fcmp')
        elif op == 'fneg':
            v = self.ev(act, ins[3], ins[2]); env[ins[1]] = -v if isinstance(v, float) else OpaqueFloat('neg')
        elif op == 'fence': pass
        else: raise Unsupported('instruction %r' % (ins,))
        act.idx += 1

    def lifetimes(self, fn):
        """names of allocas whose lifetime is delimited by markers"""
        r = fn.memo.get('lifetimes')
        if r is None:
            r = fn.memo['lifetimes'] = set(x[4][1][1][1] for code in fn.blocks.values() for x in code
                                 if x[0] == 'call' and x[3][0] == 'g' and x[3][1].startswith('@llvm.lifetime.start') and x[4][1][1][0] == 'l')
        return r
    def pending_branch(self, s2, a2, tgt):
        # performs the branch on the forked state; obligations raised there must be attributed to it
        try:
            if a2.saved is not None: self.after_await(s2, a2, tgt)
            self.jump(s2, a2, tgt)
        except PathEnd: self.work.remove(s2)
        except Refuted as e: self.work.remove(s2); self.report(s2, e)

    def insert(self, m, ty, v, e, ix):
        t = m.res(ty)
        if v is UNDEF: v = (UNDEF,) * (len(t[2]) if t[0] == 'st' else t[1])
        l = list(v)
        if len(ix) == 1: l[ix[0]] = e
        else: l[ix[0]] = self.insert(m, m.field(t, ix[0])[1], l[ix[0]], e, ix[1:])
        return tuple(l)

    def fbin(self, op, a, b):
        if isinstance(a, float) and isinstance(b, float):
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv' and b != 0: return a / b
        return OpaqueFloat(op)

    def do_cast(self, ins, v):
        op, t, t2 = ins[2], ins[3], ins[5]
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'ptrtoint' and t2[1] < 64: return sym.cast('trunc', 64, v, t2[1])
            if op == 'inttoptr' and t[1] < 64: return sym.cast('zext', t[1], v, 64)
            if op == 'bitcast' and t2 in ('double', 'float') and isinstance(v, int):
                return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
            return v
        if op in ('trunc', 'zext', 'sext'): return sym.cast(op, t[1], v, t2[1])
        if op == 'sitofp': return float(sym.sgn(v, t[1])) if isinstance(v, int) else OpaqueFloat('sitofp')
        if op == 'uitofp': return float(v) if isinstance(v, int) else OpaqueFloat('uitofp')
        if op == 'fptosi' and isinstance(v, float): return int(v) & MASK[t2[1]]
        if op == 'fptoui' and isinstance(v, float): return int(v) & MASK[t2[1]]
        if op in ('fpext', 'fptrunc'): return v
        if op in ('fptosi', 'fptoui'): return sym.fresh('fptosi', t2[1])
        raise Unsupported('cast ' + op)

    def gep(self, st, act, ins):
        m = act.fn.mod
        base = self.ev(act, ins[3], 'ptr'); t = ins[2]
        off = 0
        for j, (it, iv) in enumerate(ins[4]):
            x = self.ev(act, iv, it)
            if j == 0: sz = m.size(t)
            else:
                tt = m.res(t)
                if tt[0] == 'st':
                    fo, t = m.field(tt, x); off = off + fo if isinstance(off, int) else fold(off + fo); continue
                t = tt[2]; sz = m.size(t)
            if isinstance(x, int):
                x = sym.sgn(x, it[1]) * sz
                off = off + x if isinstance(off, int) else fold(off + x)
            else:
                if x is UNDEF: raise Refuted('uninitialised-value', 'uninitialised index')
                if it[1] < 64: x = sym.cast('sext', it[1], x, 64)
                x = x * sz
                off = fold(x + off)
        if isinstance(off, int):
            if off == 0: return base
            if isinstance(base, int): return (base + off) & MASK[64]
            if base is UNDEF: return UNDEF
            if isinstance(base, SAddr): return SAddr(base.base, fold(base.off + off))
            return sym.binop('add', 64, base, off & MASK[64])
        if isinstance(base, int):
            o = self.obj(st, base >> 32)
            if o is None: return (base + self.concretize(st, off)) & MASK[64]
            b = base & ~0xffffffff
            return SAddr(b, fold(off + (base & 0xffffffff)))
        if isinstance(base, SAddr): return SAddr(base.base, fold(base.off + off))
        raise Unsupported('gep on %r' % (base,))

    # ---------- calls ----------
    def do_call(self, st, act, ins):
        callee = ins[3]
        m = act.fn.mod
        if callee[0] == 'g':
            name = callee[1]
            if name.startswith('@llvm.'):
                for pre, h in self.extpre:
                    if name.startswith(pre):
                        args = [self.ev(act, v, t) if t not in ('metadata', 'token') or v[0] == 'l' else None for t, v, _ in ins[4]]
                        self.ext_result(st, h(self, st, act, ins, args)); return
                raise Unsupported('intrinsic ' + name)
            k = self.gkey(m, name)
            fn = self.local.get(k) if isinstance(k, tuple) else self.defs.get(k)
            if fn is None and name in m.globals:  # alias
                kind, fn = self.faddr.get(self.addr_of(m, name) >> 32, (None, None))
                if kind == 'ext': name = fn; fn = None
            target = fn if fn is not None else name
        elif callee[0] == 'asm':
            if callee[1] in ('""',): self.finish_call(st, UNDEF); return
            raise Unsupported('inline asm ' + callee[1])
        else:
            a = self.ev(act, callee, 'ptr')
            if not isinstance(a, int): 
                if a is UNDEF: raise Refuted('memory-safety', 'call through an uninitialised pointer')
                raise Unsupported('call through symbolic pointer')
            e = self.faddr.get(a >> 32)
            if e is None:
                if a == 0: raise Refuted('memory-safety', 'call through a null function pointer in ' + act.fn.name)
                o = self.obj(st, a >> 32)
                raise Refuted('memory-safety', 'call through a bad function pointer %s' % self.describe(st, a))
            target = e[1]
        args = [self.ev(act, v, t) for t, v, _ in ins[4]]
        # byval at call site is handled in the callee; sret etc. are plain pointers
        if isinstance(target, Function):
            h = self.ext.get(target.name)
            if h is None:
                o = self.ovr.get(target.name, 0)
                if o == 0:
                    o = self.ovr[target.name] = next((f for test, f in self.extovr if test(target.name)), None)
                if o is not None:
                    r = o(self, st, act, ins, args)
                    if r is not NotImplemented:
                        self.ext_seen.add(target.name); self.ext_result(st, r); return
                target.parse()
                self.call_function(st, target, args); return
            name = target.name
        else: name = target
        h = self.ext.get(name)
        if h is None: raise Unsupported('external function without a contract: ' + name)
        self.ext_seen.add(name)
        self.ext_result(st, h(self, st, act, ins, args))

    def ext_result(self, st, r):
        if r is NORET: return
        if isinstance(r, Fork):
            alts = [(c, v, t) for c, v, t in r.alts if c is None or self.feasible(st, c)]
            if not alts: raise PathEnd()
            if len(alts) > 1: st.forks += 1
            for c, v, t in alts[1:]:
                s2 = st.clone()
                if c is not None: self.assume(s2, fold(c))
                if t: s2.trace.append(t)
                self.work.append(s2)
                self.finish_call(s2, v)
            c, v, t = alts[0]
            if c is not None: self.assume(st, fold(c))
            if t: st.trace.append(t)
            self.finish_call(st, v); return
        self.finish_call(st, r)

    # ---------- exceptions ----------
    def leave_for_unwind(self, st):
        """the current activation is left by `resume`"""
        act = st.stack.pop()
        if act.frame is None:
            for i in act.allocas: st.objs.pop(i, None); st.own.discard(i)
    def unwind(self, st, H):
        while st.stack:
            act = st.stack[-1]
            ins = act.code[act.idx]
            if ins[0] == 'invoke':
                lp = None
                for x in act.fn.blocks[ins[6]]:
                    if x[0] == 'landingpad': lp = x; break
                    if x[0] != 'phi': break
                sel = self.match_lp(st, act, lp, H)
                if sel is not None:
                    if act.saved is not None: self.await_threw(st, act)
                    self.jump(st, act, ins[6])
                    act.env[lp[1]] = (H, sel)
                    return
            elif ins[0] not in ('call',): raise Unsupported('unwind through ' + ins[0])
            if act.hook is not None: raise Refuted('terminate', 'exception escapes from a callback run by the runtime')
            if act.saved is not None: self.await_threw(st, act)
            st.stack.pop()
            if act.frame is None:
                for i in act.allocas: st.objs.pop(i, None); st.own.discard(i)
        raise Refuted('uncaught-exception', 'an exception escapes to the caller')
    def typeid(self, ti):
        if ti == 0: return 1
        if ti not in self.tid: self.tid[ti] = len(self.tid) + 2
        return self.tid[ti]
    def match_lp(self, st, act, lp, H):
        e = st.excs[H]
        ti = st.excs[e['primary']]['tinfo']
        for kind, c in lp[3]:
            if kind == 'catch':
                ci = self.const(c, 'ptr', act.fn.mod)
                if ci == 0: return 1
                if self.derives(st, ti, ci) is not None: return self.typeid(ci)
            else: return 0xffffffff # filter: treat as violated specification
        return 0 if lp[2] else None
    STDBASE = {'@_ZTISt13runtime_error': '@_ZTISt9exception', '@_ZTISt11logic_error': '@_ZTISt9exception',
               '@_ZTISt12out_of_range': '@_ZTISt11logic_error', '@_ZTISt16invalid_argument': '@_ZTISt11logic_error',
               '@_ZTISt12length_error': '@_ZTISt11logic_error', '@_ZTISt9bad_alloc': '@_ZTISt9exception',
               '@_ZTISt20bad_array_new_length': '@_ZTISt9bad_alloc', '@_ZTISt8bad_cast': '@_ZTISt9exception',
               '@_ZTISt17bad_function_call': '@_ZTISt9exception', '@_ZTI10QException': '@_ZTISt9exception',
               '@_ZTI20QUnhandledException': '@_ZTI10QException', '@_ZTISt12system_error': '@_ZTISt13runtime_error',
               '@_ZTISt18bad_variant_access': '@_ZTISt9exception', '@_ZTISt19bad_optional_access': '@_ZTISt9exception'}
    def derives(self, st, ti, target):
        """byte offset of base `target` in class `ti`, or None"""
        if ti == target: return 0
        n1 = self.tiname(ti); n2 = self.tiname(target)
        if n1 and n1 == n2: return 0
        o = self.obj(st, ti >> 32)
        if o is None or o.kind == 'extglobal' or (ti >> 32) in self.faddr:
            b = self.STDBASE.get(n1)
            while b:
                if b == n2: return 0
                b = self.STDBASE.get(b)
            return None
        vt = o.cells[0][1]
        vo = self.gname(vt)
        if 'si_class' in vo: return self.derives(st, o.cells[16][1], target)
        if 'vmi_class' in vo:
            nb = o.cells[20][1]
            for k in range(nb):
                b = o.cells[24 + 16 * k][1]; fl = o.cells[32 + 16 * k][1]
                if fl & 1: raise Unsupported('virtual base')
                r = self.derives(st, b, target)
                if r is not None: return r + (fl >> 8)
        return None
    def gname(self, a):
        i = a >> 32
        if i in self.gobj: return self.gobj[i].name
        if i in self.faddr: return str(self.faddr[i][1])
        return ''
    def tiname(self, a):
        n = self.gname(a)
        return n.split(' ')[0]

    # ---------- coroutines ----------
    def coro_info(self, fn):
        inf = fn.memo.get('coro')
        if inf is None:
            inf = {}
            for b, code in fn.blocks.items():
                for k, x in enumerate(code):
                    if x[0] == 'call' and x[3] == ('g', '@llvm.coro.suspend') and x[4][0][1][0] == 'l':
                        sw = code[k + 1]
                        cases = dict(sw[5]) if sw[0] == 'switch' else {}
                        inf[x[4][0][1][1]] = (b, k, x[4][1][1][1], cases.get(0))
            fn.memo['coro'] = inf
        return inf
    def coro_save(self, st, act, ins):
        cf = st.cfs[act.frame]
        b, k, final, ready = self.coro_info(act.fn)[ins[1]]
        snap = act.copy(); snap.blk = b; snap.code = act.fn.blocks[b]; snap.idx = k; snap.ramp = False; snap.hook = None; snap.saved = None; snap.visits = None
        cf = cf.copy(); st.cfs[act.frame] = cf
        cf.gen += 1; cf.susp = snap
        if final: cf.final = True
        act.saved = (cf.gen, b, k, ready)
        return cf.gen
    def coro_suspend(self, st, act, ins):
        cf = st.cfs[act.frame]
        sv = act.saved; act.saved = None
        if sv is None: raise Unsupported('coro.suspend without save')
        if cf.susp is not None and cf.gen == sv[0] and not cf.destroyed:
            cf = cf.copy(); st.cfs[act.frame] = cf
            snap = act.copy(); snap.ramp = False; snap.hook = None; snap.saved = None; snap.visits = None
            cf.susp = snap
        return 0xff
    def after_await(self, st, act, tgt):
        """branch taken between coro.save and coro.suspend: to the ready block means: not suspended after all"""
        gen, b, k, ready = act.saved
        if tgt != ready: return
        act.saved = None
        cf = st.cfs[act.frame]
        if cf.destroyed or cf.gen != gen or cf.susp is None:
            raise Refuted('coroutine-protocol', 'a coroutine continues after its suspension was already resumed or destroyed')
        cf = cf.copy(); st.cfs[act.frame] = cf; cf.susp = None; cf.gen += 1
    def await_threw(self, st, act):
        gen, b, k, ready = act.saved; act.saved = None
        cf = st.cfs[act.frame]
        if cf.destroyed or cf.gen != gen or cf.susp is None:
            raise Refuted('coroutine-protocol', 'await_suspend throws after the coroutine was resumed')
        cf = cf.copy(); st.cfs[act.frame] = cf; cf.susp = None; cf.gen += 1
    def coro_frame(self, st, a, what):
        if not isinstance(a, int):
            if a is UNDEF: raise Refuted('coroutine-protocol', what + ' of an uninitialised handle')
            return None
        if a == 0: raise Refuted('coroutine-protocol', what + ' of a null coroutine handle')
        cf = st.cfs.get(a)
        if cf is not None and cf.destroyed: raise Refuted('coroutine-protocol', what + ' of a destroyed coroutine')
        return cf
    def coro_continue(self, st, a, result):
        cf = self.coro_frame(st, a, 'resume' if result == 0 else 'destroy')
        what = 'resume' if result == 0 else 'destroy'
        if cf is None:
            # not a coroutine created by interpreted code: ABI frame with two function pointers
            self.coro_foreign(st, a, result); return
        if cf.susp is None: raise Refuted('coroutine-protocol', what + ' of a coroutine that is not suspended (%s)' % cf.fn.name)
        if result == 0 and cf.final: raise Refuted('coroutine-protocol', 'resume of a coroutine that has already finished (%s)' % cf.fn.name)
        act = cf.susp.copy()
        cf = cf.copy(); st.cfs[a] = cf; cf.susp = None; cf.gen += 1
        ins = act.code[act.idx]
        act.env[ins[1]] = result; act.idx += 1
        st.stack.append(act)
    def coro_foreign(self, st, a, result):
        name = '@vq_foreign_resume' if result == 0 else '@vq_foreign_destroy'
        if isinstance(a, int) and ((a >> 32) in st.objs or (a >> 32) in self.gobj):
            fp = self.read(st, a if result == 0 else a + 8, 8)
            if not isinstance(fp, int): raise Refuted('coroutine-protocol', 'resume of something that is not a coroutine frame')
            if fp == 0: raise Refuted('coroutine-protocol', 'resume of a finished coroutine')
            e = self.faddr.get(fp >> 32)
            if not e: raise Refuted('coroutine-protocol', 'resume through something that is not a coroutine frame')
            self.call_function(st, e[1], [a]); return
        fn = self.defs.get(name)
        if fn is None or isinstance(a, int): raise Refuted('coroutine-protocol', 'resume of something that is not a coroutine frame: %s' % (a,))
        self.call_function(st, fn, [a])

class _NR: pass
NORET = _NR()

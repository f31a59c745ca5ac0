"""Invariants at cut points.

A cut point is a named point of a contract (vq_cut: one round of an arbitrarily long history) or the
header of a loop whose body branches on symbolic data. At every arrival the state is brought into a
canonical form (only what is reachable from live variables, addresses renumbered). The set of recorded
states of a cut point is its invariant: an arrival must be shown to be subsumed by a recorded state
(then the path is closed), otherwise it is recorded and explored. When a loop keeps producing new
states of the same shape, the slots that differ are generalised to fresh symbols related by candidate
relations; a candidate that a later arrival does not preserve is dropped (Houdini) and the weaker state
is explored. A run that ends without pending states has therefore established an inductive invariant.
"""
import z3
import sym, lia
from sym import UNDEF, SAddr, Comp, OpaqueFloat, Unsupported, bv, fold, is_sym

REC_LIMIT = 30000
WIDEN_AFTER = 4

# ---------------------------------------------------------------- static analysis
def uses(x, out):
    if type(x) is tuple or type(x) is list:
        if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str): out.add(x[1])
        else:
            for y in x: uses(y, out)

def analyse(fn):
    a = fn.memo.get('ana')
    if a is not None: return a
    fn.parse()
    blocks = fn.blocks
    labels = set(blocks)
    succ = {}
    for b, code in blocks.items():
        s = []
        t = code[-1]
        def lab(x):
            if isinstance(x, str):
                if x in labels: s.append(x)
            elif isinstance(x, (tuple, list)):
                for y in x: lab(y)
        lab(t[1:]) if t[0] != 'invoke' else lab((t[5], t[6]))
        succ[b] = s
    use = {}; df = {}
    phiuse = {}   # (pred, succ) -> names
    for b, code in blocks.items():
        u = set(); d = set()
        for ins in code:
            if ins[0] == 'phi':
                for l, v in ins[3]:
                    s = set(); uses(v, s)
                    if s: phiuse.setdefault((l, b), set()).update(s)
                d.add(ins[1]); continue
            s = set(); uses(ins, s)
            u |= s - d
            if isinstance(ins[1], str) and ins[0] not in ('br', 'cbr', 'store', 'ret'): d.add(ins[1])
        use[b] = u; df[b] = d
    live = {b: set() for b in blocks}
    ch = True
    order = list(blocks)[::-1]
    while ch:
        ch = False
        for b in order:
            o = set()
            for t in succ[b]:
                o |= live[t]; o |= phiuse.get((b, t), set())
            n = use[b] | (o - df[b])
            if n != live[b]: live[b] = n; ch = True
    # loop headers
    heads = set(); color = {}
    stack = [(fn.entry, iter(succ[fn.entry]))]; color[fn.entry] = 1
    while stack:
        b, it = stack[-1]
        for t in it:
            c = color.get(t)
            if c is None: color[t] = 1; stack.append((t, iter(succ[t]))); break
            if c == 1: heads.add(t)
        else:
            color[b] = 2; stack.pop()
    a = {'succ': succ, 'live': live, 'phiuse': phiuse, 'heads': heads, 'pt': {}}
    fn.memo['ana'] = a
    return a

def heads(fn):
    h = fn.loopheads
    if h is None: h = fn.loopheads = analyse(fn)['heads']
    return h

def live_at(fn, b, idx, after):
    """names live just before instruction idx of block b (after=True: while that call is in progress)"""
    a = analyse(fn); k = (b, idx, after)
    r = a['pt'].get(k)
    if r is not None: return r
    code = fn.blocks[b]
    cur = set()
    for t in a['succ'][b]:
        cur |= a['live'][t]; cur |= a['phiuse'].get((b, t), set())
    for j in range(len(code) - 1, idx - 1, -1):
        ins = code[j]
        if isinstance(ins[1], str) and ins[0] not in ('br', 'cbr', 'store', 'ret'): cur.discard(ins[1])
        if j == idx and after: break
        if ins[0] != 'phi':
            s = set(); uses(ins, s); cur |= s
    r = tuple(sorted(cur)); a['pt'][k] = r
    return r

# ---------------------------------------------------------------- canonical form
class Canon:
    def __init__(self, E, st, key):
        self.E = E; self.st = st
        self.num = {}; self.queue = []
        self.shape = []; self.slots = []   # slots: (location, value, bits)
        sh = self.shape
        sh.append(key)
        for n, a in enumerate(st.stack): self.act(a, n == len(st.stack) - 1, ('act', n))
        sh.append(tuple(self.addr(x) for x in st.caught))
        gl = [o for o in st.objs.values() if o.kind in ('global', 'extglobal')]
        gl.sort(key=lambda o: (o.name, o.id))
        for o in gl: self.addr(o.id << 32)
        while self.queue:
            i = self.queue.pop(); self.object(i)
        sh.append(('leak', sum(1 for o in st.objs.values() if o.kind == 'heap' and o.live and not o.model and o.id not in self.num)))
        sh.append(st.silent)
        self.key = tuple(sh)
    def act(self, a, top, loc):
        E = self.E; sh = self.shape
        sh.append((id(a.fn), a.blk, a.idx, a.ramp))
        if a.frame: sh.append(self.addr(a.frame))
        if a.saved is not None:
            cf = self.st.cfs[a.frame]; sh.append((cf.gen == a.saved[0],) + tuple(a.saved[1:]))
        if a.hook is not None:
            c = [x.cell_contents for x in (a.hook.__closure__ or ())]
            sh.append((a.hook.__code__, tuple(self.addr(x) if isinstance(x, int) else None for x in c if not callable(x) and not hasattr(x, '__dict__') and x is not self.st)))
        ins = a.code[a.idx]
        incall = not top and ins[0] in ('call', 'invoke')
        for n in live_at(a.fn, a.blk, a.idx, incall or loc[0] == 'susp'):
            v = a.env.get(n)
            if n in a.env: self.value(v, loc + (n,), None)
    def addr(self, v):
        """canonical token of an address, or the int itself"""
        i = v >> 32
        if i == 0: return v
        n = self.num.get(i)
        if n is None:
            if i in self.st.objs:
                n = len(self.num); self.num[i] = n; self.queue.append(i)
            elif i in self.E.gobj or i in self.E.faddr: return v      # static, unmodified
            elif 16 < i <= self.E.nextid: n = len(self.num); self.num[i] = n   # no longer exists
            else: return v
        return ('A', n, v & 0xffffffff)
    def value(self, v, loc, size):
        sh = self.shape
        if isinstance(v, int):
            a = self.addr(v)
            if a is v or isinstance(a, int):
                if v >> 32 and ((v >> 32) in self.E.faddr or (v >> 32) in self.E.gobj): sh.append(v)
                else: sh.append('s'); self.slots.append((loc, v, size))
            else:
                o = self.st.objs.get(v >> 32)
                if o is not None and o.arr is not None:
                    sh.append(('P', a[1])); self.slots.append((loc + ('off', v & ~0xffffffff), v & 0xffffffff, 8))
                else: sh.append(a)
        elif is_sym(v): sh.append('s'); self.slots.append((loc, v, size))
        elif isinstance(v, SAddr):
            a = self.addr(v.base)
            sh.append(('P', a[1])); off = v.off
            if a[2]: off = fold(off + a[2])
            self.slots.append((loc + ('off', v.base & ~0xffffffff), off, 8))
        elif isinstance(v, Comp):
            sh.append(('comp', tuple(s for s, _ in v.pieces)))
            for s, x in v.pieces: self.value(x, loc + ('nowiden',), s)
        elif isinstance(v, tuple):
            sh.append(('tup', len(v)))
            for x in v: self.value(x, loc + ('nowiden',), None)
        elif v is UNDEF: sh.append('U')
        elif v is None: sh.append('N')
        elif isinstance(v, float): sh.append(('F', v))
        elif isinstance(v, OpaqueFloat): sh.append('OF')
        else: sh.append(v)
    def object(self, i):
        st = self.st; o = st.objs[i]; sh = self.shape
        if not o.live: sh.append(('dead', o.kind)); return
        sh.append((o.kind, o.zero, o.model, o.size if isinstance(o.size, int) else 'symsize'))
        if not isinstance(o.size, int): self.value(o.size, ('size', i), 8)
        if o.kind in ('global', 'extglobal'): sh.append(o.name)
        if o.arr is not None: sh.append('arr'); self.slots.append((('arr', i), o.arr, 0))
        e = st.excs.get(i << 32)
        if e is not None:
            sh.append(('exc', self.addr(e['primary']), e.get('tinfo'), e.get('refs'), e['hc']))
        cf = st.cfs.get(i << 32)
        if cf is not None:
            sh.append(('cf', id(cf.fn), cf.final, cf.destroyed, self.addr(cf.promise)))
            if not cf.destroyed and cf.susp is not None: self.act(cf.susp, False, ('susp', i << 32))
        for off in sorted(o.cells):
            s, v = o.cells[off]
            if v is UNDEF and not o.zero: continue
            sh.append((off, s)); self.value(v, ('cell', i, off), s)

# ---------------------------------------------------------------- symbols
SYMC = {}
def symbols(e):
    """free constants of an expression (cached by ast id; the expression is kept alive)"""
    k = e.get_id()
    r = SYMC.get(k)
    if r is not None: return r[0]
    out = {}; seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_var(x): continue
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.get_id()] = x
        else: todo.extend(x.children())
    SYMC[k] = (out, e)
    return out

def relevant_pc(st, slots):
    live = {}
    for loc, v, s in slots:
        if is_sym(v): live.update(symbols(v))
    rest = [(c, symbols(c)) for c in st.pc]; out = []
    ch = True
    while ch:
        ch = False; r2 = []
        for c, s in rest:
            if any(k in live for k in s): out.append(c); live.update(s); ch = True
            else: r2.append((c, s))
        rest = r2
    return out

class Record:
    __slots__ = ('slots', 'pc', 'depth', 'id', 'cands', 'wide', 'parentpc')

def tobv(v, e):
    """v as an expression of the sort of e"""
    if isinstance(e, z3.BoolRef):
        if isinstance(v, int): return z3.BoolVal(bool(v & 1))
        if isinstance(v, z3.BoolRef): return v
        return z3.Extract(0, 0, v) == 1
    if isinstance(e, z3.BitVecRef): return bv(v, e.size())
    return v

def invert(r, x):
    """the symbol in r and the value for which r could be x; r a sequence of conversions"""
    if x.sort() != r.sort(): return None
    while r.num_args():
        k = r.decl().kind()
        if k == z3.Z3_OP_ITE and z3.is_bv_value(r.arg(1)) and z3.is_bv_value(r.arg(2)): x = x == r.arg(1); r = r.arg(0)
        elif k == z3.Z3_OP_NOT: x = z3.Not(x); r = r.arg(0)
        elif k in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            r = r.arg(r.num_args() - 1); x = z3.Extract(r.size() - 1, 0, x)
        else: return None
    if not z3.is_const(r) or r.decl().kind() != z3.Z3_OP_UNINTERPRETED: return None
    return r, z3.simplify(x)

def subsumed(E, st, slots, rec, ms):
    """is the arriving state an instance of rec?  ms: models of the arriving state, which refute most attempts"""
    bind = []; bound = set(); later = []
    for (loc, v, s), (rl, r, rs) in zip(slots, rec.slots):
        if isinstance(r, int):
            if isinstance(v, int):
                if v != r: return False
            elif isinstance(v, (z3.BitVecRef, z3.BoolRef)):
                c = fold(v == tobv(r, v))
                if isinstance(c, int):
                    if not c: return False
                else: later.append(c)
            else: return False
            continue
        if z3.is_app(r) and r.num_args() == 0 and r.decl().kind() == z3.Z3_OP_UNINTERPRETED and r.get_id() not in bound:
            try: x = tobv(v, r)
            except Unsupported: return False
            if x.sort() != r.sort(): return False
            bound.add(r.get_id()); bind.append((r, x)); continue
        later.append((r, v))
        if z3.is_app(r) and r.num_args(): # the value that a converted symbol must have, if there is one
            try: w = invert(r, tobv(v, r))
            except Unsupported: return False
            if w is not None and w[0].get_id() not in bound: bound.add(w[0].get_id()); bind.append(w)
    def inst(e): return z3.substitute(e, *bind) if bind else e
    todo = []
    for c in later + [('pc', c) for c in rec.pc]:
        if isinstance(c, tuple):
            if isinstance(c[0], str): c = fold(inst(c[1]))
            else:
                r, v = c
                try: rr = inst(r); x = tobv(v, rr)
                except Unsupported: return False
                if x.sort() != rr.sort(): return False
                c = fold(rr == x)
        if isinstance(c, int):
            if not c: return False
            continue
        if c.get_id() in st.pcids: continue
        for m in ms:
            if z3.is_false(m.eval(c, model_completion=True)): return False
        todo.append(c)
    for c in todo:
        r, m = E.check(st, z3.Not(c))
        if r != 'unsat':
            if m is not None: ms.append(m)
            return False
    return True

def table(E):
    t = getattr(E, 'cuttab', None)
    if t is None: t = E.cuttab = {}
    return t

def cut(E, st, name, widen=False): 
    if E.limits.get('unroll'):
        n = sum(1 for c in st.cuts if c[0] == name)
        st.cuts = st.cuts + ((name, None),)
        if n >= E.limits['unroll']: raise core().PathEnd()
        return None
    if widen: E.loopcuts.add(name)
    a = st.stack[-1]
    if a.visits is None: a.visits = {}
    a.visits['!cut'] = True
    arrive(E, st, ('cut', name), widen)
    return None
_core = None
def core():
    global _core
    if _core is None:
        import core as c; _core = c
    return _core

def on_block(E, st, act, label):
    """arrival at a loop header"""
    v = act.visits
    if v is None: v = act.visits = {}
    elif '!cut' in v: return
    o = v.get(label)
    if o is None: v[label] = (1, st.forks, st.forks); return
    n, f, f0 = o
    if f == st.forks: return
    v[label] = (n + 1, st.forks, f0)
    if E.limits.get('unroll'):
        if n > E.limits['unroll'] * 3: raise core().PathEnd()
        return
    if n >= 2:
        for c in reversed(st.cuts): # a round that passed vq_loop() needs no cut of its own
            if c[0] == ('loop', act.fn.name, label): break
            if c[0][0] == 'cut' and c[0][1] in E.loopcuts: return
        arrive(E, st, ('loop', act.fn.name, label), n > WIDEN_AFTER)

def arrive(E, st, key, widen):
    PathEnd = core().PathEnd
    c = Canon(E, st, key)
    slots = c.slots
    tab = table(E)
    recs = tab.get(c.key)
    if recs is None:
        if len(tab) > REC_LIMIT: raise Unsupported('no invariant found at %s: too many shapes of states' % (key,))
        recs = tab[c.key] = {'exact': {}, 'sym': [], 'wide': []}
    allint = all(isinstance(v, int) for _, v, _ in slots)
    if allint:
        k = tuple(v for _, v, _ in slots)
        if k in recs['exact']: close(E, st, key); raise PathEnd()
    ms = []
    if not allint and (recs['wide'] or len(recs['sym']) > 2): ms = models(E, st, [v for _, v, _ in slots])
    for r in recs['wide'] + recs['sym']:
        if subsumed(E, st, slots, r, ms): close(E, st, key); raise PathEnd()
    st.cuts = st.cuts + ((key, c.key, [s[1] for s in slots], tuple(st.pc)),)
    if widen:
        prev = [x for x in st.cuts[:-1] if x[1] == c.key and x[0] == key]
        if key[0] == 'cut': # only amounts are generalised, not the control state
            every = prev
            prev = [p for p in prev if all(a == v for a, (_, v, _) in zip(p[2], slots) if isinstance(a, int) and isinstance(v, int))]
            if len(prev) < 2 and len(every) > WIDEN_AFTER: # numbers that only grow or only shrink are amounts, too
                last = [p[2] for p in every[-WIDEN_AFTER:]] + [[v for _, v, _ in slots]]
                def steady(j):
                    xs = [l[j] for l in last]
                    if not all(isinstance(x, int) for x in xs): return True
                    ds = [y - x for x, y in zip(xs, xs[1:])]
                    return not any(ds) or (slots[j][2] or 0) >= 4 and (all(d > 0 for d in ds) or all(d < 0 for d in ds))
                if all(steady(j) for j in range(len(slots))): prev = every
        if len(prev) >= 2: generalise(E, st, key, c, recs, prev); return
    if allint: recs['exact'][k] = True
    else: recs['sym'].append(mkrec(st, slots, False))
    E.ncut = getattr(E, 'ncut', 0) + 1
    if E.ncut > REC_LIMIT: raise Unsupported('no invariant found at %s: too many states' % (key,))

def close(E, st, key):
    E.closed = getattr(E, 'closed', 0) + 1
    E.vc['cut'] = E.vc.get('cut', 0) + 1

def mkrec(st, slots, wide):
    r = Record(); r.slots = slots; r.pc = relevant_pc(st, slots); r.wide = wide; r.cands = None
    return r

def setslot(E, st, loc, val):
    """write a widened value back into the state; loc as recorded"""
    k = loc[0]
    off = None
    if len(loc) >= 2 and loc[-2] == 'off': val = SAddr(loc[-1], val); loc = loc[:-2]
    if k == 'cell':
        o = E.wobj(st, loc[1]); s = o.cells[loc[2]][0]; o.cells[loc[2]] = (s, val)
    elif k == 'act': st.stack[loc[1]].env[loc[2]] = val
    elif k == 'susp':
        cf = st.cfs[loc[1]].copy(); st.cfs[loc[1]] = cf; cf.susp = cf.susp.copy(); cf.susp.env[loc[2]] = val
    elif k == 'arr': E.wobj(st, loc[1]).arr = val
    elif k == 'size': E.wobj(st, loc[1]).size = val
    else: raise Unsupported('cannot generalise slot %r' % (loc,))

def generalise(E, st, key, c, recs, prev):
    """replace the state by a generalisation covering this arrival and an earlier one"""
    slots = c.slots
    E.nwiden = getattr(E, 'nwiden', 0) + 1
    if E.nwiden > 200: raise Unsupported('no inductive invariant found at %s' % (key,))
    # which slots vary?
    olds = [p[2] for p in prev[-3:]]
    # start from the latest generalisation on this path, if any
    base = None
    for r in reversed(recs['wide']):
        if key[0] == 'cut' and not all(a[1] == v for a, (_, v, _) in zip(r.slots, slots) if isinstance(a[1], int) and isinstance(v, int)): continue
        base = r; break
    vary = []
    for j, (loc, v, s) in enumerate(slots):
        same = True
        for o in olds:
            x = o[j]
            if isinstance(x, int) and isinstance(v, int): same = same and x == v
            elif is_sym(x) and is_sym(v) and x.eq(v): pass
            else: same = False
        if not same: vary.append(j)
    if base is not None:
        for j, r in enumerate(base.slots):
            if is_sym(r[1]) and z3.is_app(r[1]) and r[1].num_args() == 0 and str(r[1]).startswith('w!') and j not in vary: vary.append(j)
    if not vary: raise Unsupported('no invariant found at %s: equal states are not recognised' % (key,))
    new = {}
    samples = []     # (list of values per varying slot)
    for o in olds: samples.append([o[j] for j in vary])
    samples.append([slots[j][1] for j in vary])
    pcs = [p[3] for p in prev[-3:]] + [None]
    fresh = []
    for j in vary:
        loc, v, s = slots[j]
        if 'nowiden' in loc: raise Unsupported('no invariant found at %s: a composite value varies' % (key,))
        if loc[0] == 'arr': f = z3.Array('w!%d' % sym.fresh('w', 1).get_id(), z3.BitVecSort(64), z3.BitVecSort(64))
        elif isinstance(v, z3.BoolRef): f = z3.Bool('w!b%d' % sym.fresh('w', 1).get_id())
        else:
            bits = v.size() if isinstance(v, z3.BitVecRef) else None
            for o in olds:
                if isinstance(o[j], z3.BitVecRef): bits = o[j].size()
            if bits is None:
                if s: bits = 8 * s
                elif loc[0] in ('act', 'susp'): bits = envbits(E, st, loc)
                else: raise Unsupported('width of slot %r' % (loc,))
            f = sym.fresh('w', bits)
        fresh.append(f)
    # candidate relations
    fixed = []
    for j, (loc, v, s) in enumerate(slots):
        if j in vary: continue
        if is_sym(v) and isinstance(v, z3.BitVecRef): fixed.append(v)
    seen = set(); fx = []
    for v in fixed:
        k = v if isinstance(v, int) else ('s', v.get_id())
        if k not in seen: seen.add(k); fx.append(v)
    fx = fx[:40]
    cands = candidates(E, st, fresh, samples, pcs, fx, key[0] == 'cut')
    one = {}; rest = []
    for c_ in cands: # amounts that are equal become one symbol
        if z3.is_eq(c_) and all(any(x.eq(f) for f in fresh) for x in c_.children()):
            a, b = (one.get(x.get_id(), x) for x in c_.children())
            if not a.eq(b):
                for k, x in list(one.items()):
                    if x.eq(b): one[k] = a
                one[b.get_id()] = a
    if one:
        sub = [(f, one[f.get_id()]) for f in fresh if f.get_id() in one]
        for c_ in cands:
            x = fold(z3.substitute(c_, *sub))
            if not isinstance(x, int): rest.append(x)
        cands = rest; fresh = [one.get(f.get_id(), f) for f in fresh]
    oldpc = st.pc
    # path condition of the generalised state: what held at the first of the compared arrivals and does not
    # mention what varies stays; it is implied by the current one because conditions only accumulate
    st.pc = list(oldpc); st.pcids = set(x.get_id() for x in st.pc)
    for c_ in cands: E.assume(st, c_)
    for j, f in zip(vary, fresh): setslot(E, st, slots[j][0], f)
    cc = Canon(E, st, key)
    if cc.key != c.key: raise Unsupported('generalisation changed the shape at %s' % (key,))
    # conditions that only constrain the values of this very arrival are dropped
    keep = relevant_pc(st, cc.slots)
    vs = {}
    for x in samples[-1]:
        if is_sym(x): vs.update(symbols(x))
    liveids = {}
    for loc, v, s in cc.slots:
        if is_sym(v): liveids.update(symbols(v))
    st.pc = [x for x in keep if all(k in liveids for k in symbols(x))]
    st.pcids = set(x.get_id() for x in st.pc)
    if E.limits.get('dbgcut'): print('WIDEN', key, [(slots[j][0], [str(x[k])[:80] for x in samples]) for k, j in enumerate(vary)], '\n   CANDS', [str(x)[:160] for x in cands], '\n PC', [str(x)[:100] for x in st.pc])
    r = Record(); r.slots = cc.slots; r.pc = list(st.pc); r.wide = True; r.cands = cands
    recs['wide'].append(r)
    st.cuts = st.cuts + (('widened', key),)
    E.invs.append('%s %s: %s' % (key[1], key[2] if len(key) > 2 else '', [str(x) for x in r.pc][:12]))

def envbits(E, st, loc):
    a = st.stack[loc[1]] if loc[0] == 'act' else st.cfs[loc[1]].susp
    for code in a.fn.blocks.values():
        for ins in code:
            if ins[1] == loc[2]:
                op = ins[0]
                t = ins[2]
                if op in ('load', 'phi', 'call', 'invoke') : ty = t
                elif op == 'bin': ty = ins[3]
                elif op == 'cast': ty = ins[5]
                elif op == 'icmp': return 1
                elif op == 'gep': return 64
                else: break
                if ty == 'ptr': return 64
                if isinstance(ty, tuple) and ty[0] == 'i': return ty[1]
    for t, n, _ in a.fn.params:
        if n == loc[2]:
            if t == 'ptr': return 64
            if isinstance(t, tuple) and t[0] == 'i': return t[1]
    raise Unsupported('width of %s' % (loc,))

def models(E, st, values):
    """a few models of the path condition that differ in the values compared"""
    out = []
    sv = z3.Solver(); sv.set('timeout', 400)
    for c in st.pc: sv.add(c)
    vs = [v for v in values if isinstance(v, z3.BitVecRef)]
    for want in (None, 'small', 'large', 'differ'):
        sv.push()
        if want == 'small': sv.add(*[z3.And(v >= -1, v <= 7) for v in vs])
        elif want == 'large': sv.add(*[v >= 64 for v in vs if v.size() >= 16][:6])
        elif want == 'differ' and out: sv.add(*[v != out[0].eval(v, model_completion=True) for v in vs][:8])
        if sv.check() == z3.sat: out.append(sv.model())
        sv.pop()
    return out

def candidates(E, st, fresh, samples, pcs, fixed, sums=False):
    """relations between generalised slots that hold for every sample"""
    out = []; have = set()
    class Then: pass
    def ex(v, n): return bv(v, n)
    # concrete states of the samples refute most candidates without a query
    views = []
    for s, pc in zip(reversed(samples), reversed(pcs)): # the current arrival first
        x = st
        if pc is not None: x = Then(); x.pc = pc
        views.append((s, x, models(E, x, s), lia.Context(x.pc)))
    def holds(f):
        todo = []
        for s, x, ms, ctx in views:
            c = fold(f(s))
            if isinstance(c, int):
                if not c: return False
                continue
            for m in ms:
                if z3.is_false(m.eval(c, model_completion=True)): return False
            todo.append((c, x, ctx))
        for c, x, ctx in todo:
            r = ctx.implied(c)
            if r is None: r = E.check(x, z3.Not(c), 1500)[0] == 'unsat'
            if not r: return False
        return True
    def tr(f):
        try:
            g = fold(f(fresh))
            if isinstance(g, int) or g.get_id() in have: return
            if holds(f): out.append(g); have.add(g.get_id())
        except (Unsupported, z3.Z3Exception, AttributeError): pass
    m = len(fresh)
    bvs = [i for i in range(m) if isinstance(fresh[i], z3.BitVecRef)]
    for i in bvs:
        n = fresh[i].size()
        if n < 8: continue
        for u in fixed[:16] + [0]:
            if is_sym(u):
                if u.size() != n: continue
                uu = u
            else: uu = z3.BitVecVal(u, n)
            tr(lambda s, i=i, uu=uu, n=n: z3.ULE(ex(s[i], n), uu))
            had = len(out)
            if is_sym(u) and n == 32: tr(lambda s, i=i, uu=uu, n=n: ex(s[i], n) < uu)
            tr(lambda s, i=i, uu=uu, n=n: ex(s[i], n) <= uu)
            if is_sym(u) and len(out) == had and n == 32: tr(lambda s, i=i, uu=uu, n=n: ex(s[i], n) <= 2 * uu)
            tr(lambda s, i=i, uu=uu, n=n: ex(s[i], n) >= uu)
        first = samples[0][i]
        if True:
            f0 = ex(first, n)
            tr(lambda s, i=i, n=n: ex(s[i], n) >= f0)
            tr(lambda s, i=i, n=n: ex(s[i], n) <= f0)
            tr(lambda s, i=i, n=n: z3.ULE(ex(s[i], n), f0))
        for k in (1, 2, 3):
            tr(lambda s, i=i, n=n, k=k: ex(s[i], n) & ((1 << k) - 1) == 0)
    for x in range(len(bvs)):
        for y in range(x + 1, len(bvs)):
            i, j = bvs[x], bvs[y]
            n = fresh[i].size()
            if fresh[j].size() != n: continue
            for a in (1, -1, 8, -8):
                tr(lambda s, i=i, j=j, a=a, n=n: ex(s[i], n) + a * ex(s[j], n) == ex(samples[0][i], n) + a * ex(samples[0][j], n))
            for a in (8, -8):
                tr(lambda s, i=i, j=j, a=a, n=n: a * ex(s[i], n) + ex(s[j], n) == a * ex(samples[0][i], n) + ex(samples[0][j], n))
            tr(lambda s, i=i, j=j, n=n: ex(s[i], n) <= ex(s[j], n))
            tr(lambda s, i=i, j=j, n=n: ex(s[j], n) <= ex(s[i], n))
    if sums: # histories: sums of amounts stay below a fixed amount
        b64 = [i for i in bvs if fresh[i].size() == 64][:6]
        lim = [u for u in fixed if is_sym(u) and u.size() == 64][:8]
        import itertools
        for f in lim: # what remains known of amounts that do not vary
            if f.num_args(): continue
            tr(lambda s, f=f: f >= 0)
            for u in lim:
                if f is not u: tr(lambda s, f=f, u=u: f <= u)
        for k in (2, 3):
            for c in itertools.combinations([('v', i) for i in b64] + [('f', u) for u in lim], k):
                if all(x[0] == 'f' for x in c): continue
                for u in lim:
                    if any(x[1] is u for x in c): continue
                    tr(lambda s, c=c, u=u: sum((ex(s[x[1]], 64) if x[0] == 'v' else x[1]) for x in c) <= u)
    return out

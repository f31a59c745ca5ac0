"""Linear integer arithmetic for queries the bit-vector solver is slow at.

Only terms whose exact integer value provably stays within the machine range (by interval analysis of the path
condition) are translated, so machine and mathematical arithmetic agree on them; conjuncts of the path condition
that cannot be translated are left out, which can only make `unsat` harder to reach."""
import z3

class No(Exception): pass
K = {n: getattr(z3, 'Z3_OP_' + n) for n in
     'BADD BSUB BMUL BNEG ITE AND OR NOT EQ SLEQ SLT SGEQ SGT ULEQ ULT UGEQ UGT SIGN_EXT ZERO_EXT UNINTERPRETED TRUE FALSE IMPLIES DISTINCT XOR IFF'.split() if hasattr(z3, 'Z3_OP_' + n)}

class Tr:
    def __init__(self):
        self.lo = {}; self.hi = {}; self.memo = {}; self.keep = []
    def rng(self, n): return -(1 << (n - 1)), (1 << (n - 1)) - 1
    def term(self, e):
        """(integer expression, lo, hi) of the signed value of e"""
        i = e.get_id()
        r = self.memo.get(i)
        if r is not None: return r
        r = self._term(e); self.memo[i] = r; self.keep.append(e)
        return r
    def _term(self, e):
        n = e.size()
        if z3.is_bv_value(e):
            v = e.as_signed_long(); return z3.IntVal(v), v, v
        k = e.decl().kind(); c = e.children()
        if k == K['UNINTERPRETED'] and not c:
            a, b = self.rng(n); i = e.get_id()
            return z3.Int('i!%d' % i), max(a, self.lo.get(i, a)), min(b, self.hi.get(i, b))
        if k == K['BADD']: ts = [self.term(x) for x in c]; v = z3.Sum([t[0] for t in ts]); lo = sum(t[1] for t in ts); hi = sum(t[2] for t in ts)
        elif k == K['BSUB']: a, b = map(self.term, c); v = a[0] - b[0]; lo = a[1] - b[2]; hi = a[2] - b[1]
        elif k == K['BNEG']: a = self.term(c[0]); v = -a[0]; lo = -a[2]; hi = -a[1]
        elif k == K['BMUL']:
            if len(c) != 2 or not z3.is_bv_value(c[0]): raise No()
            f = c[0].as_signed_long(); a = self.term(c[1]); v = f * a[0]; lo, hi = sorted((f * a[1], f * a[2]))
        elif k == K['SIGN_EXT']: v, lo, hi = self.term(c[0])
        elif k == K['ZERO_EXT']:
            v, lo, hi = self.term(c[0])
            if lo < 0: raise No()
        elif k == K['ITE']:
            b = self.prop(c[0]); x = self.term(c[1]); y = self.term(c[2]); v = z3.If(b, x[0], y[0]); lo = min(x[1], y[1]); hi = max(x[2], y[2])
        else: raise No()
        a, b = self.rng(n)
        if lo < a or hi > b: raise No()
        return v, lo, hi
    def prop(self, e):
        if z3.is_true(e): return z3.BoolVal(True)
        if z3.is_false(e): return z3.BoolVal(False)
        k = e.decl().kind(); c = e.children()
        if k == K['UNINTERPRETED'] and not c: return e
        if k == K['AND']: return z3.And([self.prop(x) for x in c])
        if k == K['OR']: return z3.Or([self.prop(x) for x in c])
        if k == K['NOT']: return z3.Not(self.prop(c[0]))
        if k == K['EQ']:
            if z3.is_bv(c[0]): return self.term(c[0])[0] == self.term(c[1])[0]
            if z3.is_bool(c[0]): return self.prop(c[0]) == self.prop(c[1])
            raise No()
        if k in (K['SLEQ'], K['SLT'], K['SGEQ'], K['SGT'], K['ULEQ'], K['ULT'], K['UGEQ'], K['UGT']):
            a, b = self.term(c[0]), self.term(c[1])
            if k in (K['ULEQ'], K['ULT'], K['UGEQ'], K['UGT']) and (a[1] < 0 or b[1] < 0): raise No()
            if k in (K['SLEQ'], K['ULEQ']): return a[0] <= b[0]
            if k in (K['SLT'], K['ULT']): return a[0] < b[0]
            if k in (K['SGEQ'], K['UGEQ']): return a[0] >= b[0]
            return a[0] > b[0]
        raise No()
    def learn(self, conj):
        """bounds of symbols from the conjuncts"""
        def le(a, b, strict):
            ch = False
            for x, y, up in ((a, b, True), (b, a, False)):
                # x is a symbol, possibly with a constant added
                off = 0
                if x.decl().kind() == K['BADD'] and x.num_args() == 2 and z3.is_bv_value(x.arg(0)): continue
                if x.decl().kind() != K['UNINTERPRETED'] or x.num_args(): continue
                try: _, lo, hi = self.term(y)
                except No: continue
                i = x.get_id(); a0, b0 = self.rng(x.size()); d = 1 if strict else 0
                if up and hi - d < self.hi.get(i, b0): self.hi[i] = hi - d; ch = True
                if not up and lo + d > self.lo.get(i, a0): self.lo[i] = lo + d; ch = True
            return ch
        for _ in range(6):
            ch = False; self.memo = {}
            for e in conj:
                neg = False
                while e.decl().kind() == K['NOT']: neg = not neg; e = e.arg(0)
                k = e.decl().kind()
                if k in (K['SLEQ'], K['SLT'], K['SGEQ'], K['SGT']):
                    a, b = e.arg(0), e.arg(1); strict = k in (K['SLT'], K['SGT'])
                    if k in (K['SGEQ'], K['SGT']): a, b = b, a
                    if neg: a, b, strict = b, a, not strict
                    ch |= le(a, b, strict)
                elif k in (K['ULEQ'], K['ULT'], K['UGEQ'], K['UGT']):
                    a, b = e.arg(0), e.arg(1); strict = k in (K['ULT'], K['UGT'])
                    if k in (K['UGEQ'], K['UGT']): a, b = b, a
                    if neg: a, b, strict = b, a, not strict
                    try: lo = self.term(b)[1]
                    except No: continue
                    if lo >= 0: # a <=u b and b >= 0: 0 <= a
                        if a.decl().kind() == K['UNINTERPRETED'] and not a.num_args() and self.lo.get(a.get_id(), -1) < 0: self.lo[a.get_id()] = 0; ch = True
                        ch |= le(a, b, strict)
                elif k == K['EQ'] and not neg and z3.is_bv(e.arg(0)): ch |= le(e.arg(0), e.arg(1), False) | le(e.arg(1), e.arg(0), False)
            if not ch: break
        self.memo = {}

def flat(es):
    out = []
    for e in es:
        k = e.decl().kind()
        if k == K['AND']: out += flat(e.children())
        elif k == K['NOT'] and e.arg(0).decl().kind() == K['OR']: out += flat([z3.Not(x) for x in e.arg(0).children()])
        else: out.append(e)
    return out

def unsat(pc, extra, timeout=5000):
    """True when pc and extra are contradictory already as statements about integers"""
    conj = flat([c for c in pc if z3.is_bool(c) and not z3.is_quantifier(c)] + [extra])
    t = Tr(); t.learn(conj)
    s = z3.Solver(); s.set('timeout', timeout)
    for e in conj:
        try: s.add(t.prop(e))
        except (No, AttributeError): pass
    for e in list(t.keep):
        if e.decl().kind() == K['UNINTERPRETED'] and not e.num_args():
            v, lo, hi = t.memo[e.get_id()]; s.add(v >= lo, v <= hi)
    return s.check() == z3.unsat

class Context:
    """path condition translated once; implied(c): True, False (not shown), None (c is not such a statement)"""
    def __init__(self, pc):
        self.pc = pc; self.t = None; self.memo = {}
    def prepare(self):
        conj = flat([c for c in self.pc if z3.is_bool(c) and not z3.is_quantifier(c)])
        t = self.t = Tr(); t.learn(conj)
        s = self.s = z3.Solver(); s.set('timeout', 1000)
        for e in conj:
            try: s.add(t.prop(e))
            except (No, AttributeError): pass
        self.done = set()
    def implied(self, c):
        r = self.memo.get(c.get_id())
        if r is not None: return r[0]
        if self.t is None: self.prepare()
        t = self.t
        try: p = t.prop(c)
        except (No, AttributeError): return None
        t.keep.append(c); s = self.s
        for e in t.keep:
            if e.get_id() in self.done: continue
            self.done.add(e.get_id())
            if z3.is_bv(e) and e.decl().kind() == K['UNINTERPRETED'] and not e.num_args():
                v, lo, hi = t.memo[e.get_id()]; s.add(v >= lo, v <= hi)
        s.push(); s.add(z3.Not(p)); r = s.check() == z3.unsat; s.pop()
        self.memo[c.get_id()] = (r, c)
        return r

SUMS = {}
def sums(e):
    """does e compare sums?"""
    i = e.get_id(); r = SUMS.get(i)
    if r is not None: return r[0]
    todo = [e]; seen = set(); r = False
    while todo and not r:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == K['BADD'] and sum(not z3.is_bv_value(y) for y in x.children()) > 1: r = True
            todo.extend(x.children())
    SUMS[i] = (r, e)
    return r

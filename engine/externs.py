"""Semantics of intrinsics, the C++ runtime and the specification primitives."""
import z3
import sym, core
from sym import UNDEF, SAddr, Unsupported, fold, bv, is_sym
from core import Fork, PathEnd, Refuted, NORET, CF, MASK

TABLE = {}
PREFIX = []
OVERRIDE = []     # (test on the name, contract used when applicable): library functions over symbolic arrays
def ext(*names):
    def d(f):
        for n in names: TABLE['@' + n] = f
        return f
    return d
def intr(p):
    def d(f): PREFIX.append(('@llvm.' + p, f)); return f
    return d

def cstr(E, st, a):
    if not isinstance(a, int): return str(a)
    k = a
    r = E.strcache.get(k)
    if r is not None: return r
    o = E.obj(st, a >> 32); off = a & 0xffffffff; b = bytearray()
    while o is not None:
        c = o.cells.get(off)
        if c is None or c[1] == 0 or not isinstance(c[1], int): break
        b.append(c[1] & 255); off += 1
    r = b.decode('utf8', 'replace')
    if o is not None and o.ro: E.strcache[k] = r
    return r

# ---------------- specification primitives ----------------
def nondet(st, name, bits, kind):
    if bits == 1: v = z3.Bool('%s!%d' % (name, len(st.trace)))
    else: v = z3.BitVec('%s!%d' % (name, len(st.trace)), bits)
    st.trace.append((kind, name, v))
    return v
@ext('vq_bool')
def _(E, st, act, ins, a): return nondet(st, cstr(E, st, a[0]), 1, 'bool')
@ext('vq_i64')
def _(E, st, act, ins, a): return nondet(st, cstr(E, st, a[0]), 64, 'i64')
@ext('vq_i32')
def _(E, st, act, ins, a): return nondet(st, cstr(E, st, a[0]), 32, 'i32')
@ext('vq_choose')
def _(E, st, act, ins, a):
    n = E.concretize(st, a[0]); nm = cstr(E, st, a[1])
    if n == 0: raise PathEnd()
    # run alternatives in order: first alternative continues, others are queued
    return Fork([(None, k, ('choose', nm, k)) for k in range(n)])
@ext('vq_assume')
def _(E, st, act, ins, a):
    c = a[0]
    if c is UNDEF: raise Refuted('uninitialised-value', 'assumption on an uninitialised value')
    c = sym.boolv(c) if not isinstance(c, z3.BoolRef) else c
    if not isinstance(c, int): c = fold(c)
    if isinstance(c, int):
        if not c: raise PathEnd()
        return None
    if not E.feasible(st, c): raise PathEnd()
    E.assume(st, c)
@ext('vq_ensure')
def _(E, st, act, ins, a):
    nm = cstr(E, st, a[1])
    c = a[0]
    if c is UNDEF: raise Refuted(nm, 'depends on an uninitialised value')
    c = sym.boolv(c) if not isinstance(c, z3.BoolRef) else c
    E.prove(st, c, nm)
    E.named[nm] = E.named.get(nm, 0) + 1
@ext('vq_unreachable')
def _(E, st, act, ins, a): raise Refuted(cstr(E, st, a[0]), 'reached')
@ext('vq_cover')
def _(E, st, act, ins, a): E.covered.add(cstr(E, st, a[0]))
@ext('vq_end')
def _(E, st, act, ins, a): raise PathEnd()
@ext('vq_symbolic')
def _(E, st, act, ins, a): return 1
@ext('vq_silent_alloc')
def _(E, st, act, ins, a):
    d = sym.sgn(a[0], 32); st.silent += d
@ext('vq_live_heap')
def _(E, st, act, ins, a):
    return sum(1 for o in st.objs.values() if o.kind == 'heap' and o.live and not o.model)
@ext('vq_mark_model')
def _(E, st, act, ins, a): E.wobj(st, a[0] >> 32).model = True
@ext('vq_sym_array')
def _(E, st, act, ins, a):
    """uninterpreted array of `cap` 8-byte elements"""
    cap = a[0]
    size = cap * 8 if isinstance(cap, int) else fold(bv(cap, 64) * 8)
    p = E.alloc(st, size, 'heap', 'symbolic array')
    o = E.wobj(st, p >> 32); o.arr = z3.Array('arr!%d' % (p >> 32), z3.BitVecSort(64), z3.BitVecSort(64))
    return p
@ext('vq_alive')
def _(E, st, act, ins, a):
    o = E.obj(st, a[0] >> 32) if isinstance(a[0], int) else None
    return int(o is not None and o.live)
@ext('vq_log')
def _(E, st, act, ins, a):
    if E.limits.get('verbose'): print('LOG', cstr(E, st, a[0]), a[1:])
@ext('vq_cut')
def _(E, st, act, ins, a): return E.cutmod.cut(E, st, cstr(E, st, a[0]))
@ext('vq_loop')
def _(E, st, act, ins, a): return E.cutmod.cut(E, st, cstr(E, st, a[0]), True)
@ext('vq_undef')
def _(E, st, act, ins, a):
    i, off = E.access(st, a[0], a[1], 'write'); w = E.wobj(st, i)
    for k in range(a[1]): E.write_cell(w, off + k, 1, UNDEF)
@ext('vq_is_frame')
def _(E, st, act, ins, a): return int(isinstance(a[0], int) and a[0] in st.cfs)

def _symarr(E, st, *ps):
    return any(isinstance(p, SAddr) or (isinstance(p, int) and (p >> 32) in st.objs and st.objs[p >> 32].arr is not None) for p in ps)
def _copy(E, st, act, ins, a):
    """std::copy/relocate over [first, last): element-wise copy; assumed contract of the standard library"""
    f, l, r = a[:3]
    if not _symarr(E, st, f, l, r): return NotImplemented
    n = sym.binop('sub', 64, l, f)
    E.memcpy(st, r, f, simp(E, st, n))
    if isinstance(n, int): return E.padd(r, n)
    if isinstance(r, int): return SAddr(r & ~0xffffffff, fold(n + (r & 0xffffffff)))
    return sym.binop('add', 64, r, n)
OVERRIDE.append((lambda n: 'coroutine_handle' in n and (n.startswith('@_ZSt16__do_uninit_copy') or n.startswith('@_ZSt14__relocate_a_1')), _copy))

# ---------------- llvm intrinsics ----------------
@intr('lifetime.start')
def _(E, st, act, ins, a):
    i = a[1] >> 32
    o = st.objs.get(i)
    if o is None: return
    o = E.wobj(st, i); o.live = True; o.cells = {}; o.zero = False
@intr('lifetime.end')
def _(E, st, act, ins, a):
    i = a[1] >> 32
    if i in st.objs:
        o = E.wobj(st, i); o.live = False; o.cells = {}
@intr('memcpy')
def _(E, st, act, ins, a): E.memcpy(st, a[0], a[1], simp(E, st, a[2]))
@intr('memmove')
def _(E, st, act, ins, a): E.memcpy(st, a[0], a[1], simp(E, st, a[2]))
def simp(E, st, n):
    if isinstance(n, int): return n
    n = fold(n)
    if isinstance(n, int): return n
    try: return E.concretize(st, n)
    except Unsupported: return n
@intr('memset')
def _(E, st, act, ins, a): memset(E, st, a[0], a[1], a[2])
def memset(E, st, d, v, n):
    n = simp(E, st, n)
    if not isinstance(n, int): raise Unsupported('memset of symbolic length')
    if n == 0: return
    i, off = E.access(st, d, n, 'write'); w = E.wobj(st, i)
    if off == 0 and n == w.size and v == 0: w.cells = {}; w.zero = True; return
    if not isinstance(v, int): raise Unsupported('memset symbolic value')
    while n > 0:
        k = 8 if n >= 8 and off % 8 == 0 else 1
        E.write_cell(w, off, k, int.from_bytes(bytes([v & 255]) * k, 'little')); off += k; n -= k
@intr('expect.')
def _(E, st, act, ins, a): return a[0]
@intr('assume')
def _(E, st, act, ins, a): return None
@intr('experimental.noalias')
def _(E, st, act, ins, a): return None
@intr('dbg.')
def _(E, st, act, ins, a): return None
@intr('threadlocal.address')
def _(E, st, act, ins, a): return a[0]
@intr('launder.invariant')
def _(E, st, act, ins, a): return a[0]
@intr('strip.invariant')
def _(E, st, act, ins, a): return a[0]
@intr('invariant.start')
def _(E, st, act, ins, a): return 0
@intr('is.constant')
def _(E, st, act, ins, a): return 0
@intr('objectsize')
def _(E, st, act, ins, a): return MASK[64]
@intr('trap')
def _(E, st, act, ins, a): raise Refuted('abort', 'trap executed')
@intr('stacksave')
def _(E, st, act, ins, a): return 0
@intr('stackrestore')
def _(E, st, act, ins, a): return None
@intr('va_start')
def _(E, st, act, ins, a): return None
@intr('va_end')
def _(E, st, act, ins, a): return None
@intr('eh.typeid.for')
def _(E, st, act, ins, a): return E.typeid(a[0])
def minmax(op):
    def f(E, st, act, ins, a):
        n = ins[2][1]
        c = sym.icmp({'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op], n, a[0], a[1])
        if isinstance(c, int): return a[0] if c else a[1]
        return fold(z3.If(c, bv(a[0], n), bv(a[1], n)))
    return f
for _o in ('smax', 'smin', 'umax', 'umin'): PREFIX.append(('@llvm.' + _o, minmax(_o)))
def ovf(op, signed):
    def f(E, st, act, ins, a):
        t = ins[4][0][0]; n = t[1]
        r = sym.binop(op, n, a[0], a[1])
        w = 2 * n
        ext_ = z3.SignExt if signed else z3.ZeroExt
        x = ext_(n, bv(a[0], n)); y = ext_(n, bv(a[1], n))
        full = x + y if op == 'add' else x - y if op == 'sub' else x * y
        o = fold(full != ext_(n, bv(r, n)))
        return (r, o)
    return f
for _o in ('add', 'sub', 'mul'):
    PREFIX.append(('@llvm.s%s.with.overflow' % _o, ovf(_o, True)))
    PREFIX.append(('@llvm.u%s.with.overflow' % _o, ovf(_o, False)))
@intr('abs.')
def _(E, st, act, ins, a):
    n = ins[2][1]
    if isinstance(a[0], int):
        x = sym.sgn(a[0], n); return abs(x) & MASK[n]
    x = bv(a[0], n); return fold(z3.If(x < 0, -x, x))
@intr('bswap')
def _(E, st, act, ins, a):
    n = ins[2][1]
    if isinstance(a[0], int): return int.from_bytes(a[0].to_bytes(n // 8, 'little'), 'big')
    raise Unsupported('bswap')
def ctz(E, st, act, ins, a):
    n = ins[2][1]
    if isinstance(a[0], int):
        if a[0] == 0: return n
        return (a[0] & -a[0]).bit_length() - 1
    raise Unsupported('cttz')
PREFIX.append(('@llvm.cttz', ctz))
@intr('ctlz')
def _(E, st, act, ins, a):
    n = ins[2][1]
    if isinstance(a[0], int): return n - a[0].bit_length()
    raise Unsupported('ctlz')
@intr('ctpop')
def _(E, st, act, ins, a):
    if isinstance(a[0], int): return bin(a[0]).count('1')
    raise Unsupported('ctpop')

# ---------------- coroutines ----------------
@intr('coro.id')
def _(E, st, act, ins, a):
    return ('coroid', a[1])
@intr('coro.alloc')
def _(E, st, act, ins, a): return 1
@intr('coro.size')
def _(E, st, act, ins, a): return 256
@intr('coro.align')
def _(E, st, act, ins, a): return 16
def promise_offset(al): return (16 + al - 1) // al * al     # the promise follows the two function pointers of the frame
@intr('coro.begin')
def _(E, st, act, ins, a):
    mem = a[1]
    E.access(st, mem, 16, 'coroutine frame')
    cf = CF(); cf.addr = mem; cf.fn = act.fn; cf.promise = a[0][1]; cf.susp = None; cf.final = False; cf.destroyed = False
    cf.allocas = act.allocas; cf.gen = 0
    cf.poff = promise_offset(max([i[4] for i in act.fn.blocks[act.fn.entry] if i[0] == 'alloca' and act.env.get(i[1]) == cf.promise] or [1]))
    st.cfs[mem] = cf; st.prom[cf.promise] = mem
    act.frame = mem; act.ramp = True
    E.wobj(st, mem >> 32).name = 'coroutine frame of ' + act.fn.name
    return mem
@intr('coro.save')
def _(E, st, act, ins, a): return E.coro_save(st, act, ins)
@intr('coro.suspend')
def _(E, st, act, ins, a): return E.coro_suspend(st, act, ins)
@intr('coro.end')
def _(E, st, act, ins, a):
    unwind = a[1]
    if unwind:
        cf = st.cfs[act.frame]
        return 0
    if act.ramp: return 0
    # resumed part: control returns to the resumer
    E.ret(st, None)
    return NORET
@intr('coro.free')
def _(E, st, act, ins, a): return act.frame
@intr('coro.promise')
def _(E, st, act, ins, a):
    p, al, frm = a
    if not isinstance(p, int): raise Unsupported('promise of a symbolic handle')
    off = promise_offset(al)     # al: the alignment of the promise type the program says it is
    if frm:
        h = st.prom.get(p)
        if h is None:
            return (p - off) & MASK[64]
        return h + st.cfs[h].poff - off
    cf = st.cfs.get(p)
    if cf is None:
        if p == 0: raise Refuted('coroutine-protocol', 'promise of a null coroutine handle')
        return p + off
    if cf.destroyed: raise Refuted('coroutine-protocol', 'promise of a destroyed coroutine (%s)' % cf.fn.name)
    return cf.promise + off - cf.poff
@intr('coro.done')
def _(E, st, act, ins, a):
    p = a[0]
    if not isinstance(p, int): raise Unsupported('done() of a symbolic handle')
    cf = E.coro_frame(st, p, 'done()')
    if cf is None:
        return int(E.read(st, p, 8) == 0)
    return int(cf.final)
@intr('coro.resume')
def _(E, st, act, ins, a):
    # symmetric transfer: resume directly followed by the suspension is a tail call
    k = act.idx if act.code[act.idx] is ins else act.idx - 1
    n = act.code[k + 1] if k + 1 < len(act.code) else None
    if (act.saved is not None and not act.ramp and act.hook is None and n is not None and n[0] == 'call' and n[3] == ('g', '@llvm.coro.suspend')
            and isinstance(a[0], int) and a[0] in st.cfs and st.stack[-1] is act):
        act.idx = k + 1
        E.coro_suspend(st, act, n)
        st.stack.pop()
        E.coro_continue(st, a[0], 0)
        return NORET
    E.coro_continue(st, a[0], 0); return after_push(E, st, act)
@intr('coro.destroy')
def _(E, st, act, ins, a): E.coro_continue(st, a[0], 1); return after_push(E, st, act)
@intr('coro.noop')
def _(E, st, act, ins, a):
    i = getattr(E, 'noop', None)
    if i is None:
        from core import Obj
        i = E.newid(); E.noop = i
        o = Obj(i, 16, 'global', 'noop coroutine'); E.gobj[i] = o
        j = E.newid(); E.faddr[j] = ('ext', '@vq_noop_fn')
        o.cells = {0: (8, j << 32), 8: (8, j << 32)}
    return i << 32
def after_push(E, st, act):
    # the callee activation returns with finish_call on `act`
    return NORET
_old = core.Engine.coro_foreign
def coro_foreign(E, st, a, result):
    if isinstance(a, int) and (a >> 32) == getattr(E, 'noop', None):
        E.finish_call(st, None); return
    return _old(E, st, a, result)
core.Engine.coro_foreign = coro_foreign

# ---------------- allocation ----------------
def do_new(E, st, n):
    n = simp(E, st, n)
    p = E.alloc(st, n, 'heap', 'heap block')
    if not isinstance(n, int):
        o = E.wobj(st, p >> 32); o.arr = z3.Array('arr!%d' % (p >> 32), z3.BitVecSort(64), z3.BitVecSort(64))
    return p
@ext('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZnwmSt11align_val_t', '_ZnwmSt11align_val_tRKSt9nothrow_t')
def _(E, st, act, ins, a): return do_new(E, st, a[0])
@ext('malloc')
def _(E, st, act, ins, a):
    p = do_new(E, st, a[0]); E.wobj(st, p >> 32).kind = 'malloc'; return p
@ext('calloc')
def _(E, st, act, ins, a):
    p = do_new(E, st, a[0] * a[1]); o = E.wobj(st, p >> 32); o.kind = 'malloc'; o.zero = True; return p
def do_delete(E, st, p, kinds=('heap',)):
    if p == 0: return
    if isinstance(p, SAddr):
        if fold(p.off) == 0: p = p.base
        else: raise Unsupported('delete of symbolic pointer')
    if p is UNDEF: raise Refuted('memory-safety', 'delete of an uninitialised pointer')
    if not isinstance(p, int): raise Unsupported('delete of symbolic pointer')
    o = st.objs.get(p >> 32)
    if o is None: raise Refuted('memory-safety', 'delete of a pointer that is not a heap block (%#x, %s)' % (p, E.gname(p)))
    if o.kind not in kinds or p & 0xffffffff: raise Refuted('memory-safety', 'delete of %s %s+%d' % (o.kind, o.name, p & 0xffffffff))
    if not o.live: raise Refuted('memory-safety', 'double delete of ' + o.name)
    cf = st.cfs.get(p)
    if cf is not None:
        cf = cf.copy(); st.cfs[p] = cf
        if cf.susp is not None: raise Refuted('coroutine-protocol', 'frame memory of a suspended coroutine freed')
        cf.destroyed = True
        for i in cf.allocas:
            st.objs.pop(i, None); st.own.discard(i)
    o = E.wobj(st, p >> 32); o.live = False; o.cells = {}; o.arr = None
@ext('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvRKSt9nothrow_t', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t')
def _(E, st, act, ins, a): do_delete(E, st, a[0])
@ext('free')
def _(E, st, act, ins, a): do_delete(E, st, a[0], ('malloc',))
@ext('strlen')
def _(E, st, act, ins, a): return len(cstr(E, st, a[0]).encode())
@ext('memcpy', 'memmove')
def _(E, st, act, ins, a): E.memcpy(st, a[0], a[1], simp(E, st, a[2])); return a[0]
@ext('memchr')
def _(E, st, act, ins, a):
    n = simp(E, st, a[2])
    for k in range(n):
        x = E.read(st, a[0] + k, 1)
        if not isinstance(x, int) or not isinstance(a[1], int): raise Unsupported('memchr of symbolic bytes')
        if x == a[1] & 255: return a[0] + k
    return 0
@ext('memset')
def _(E, st, act, ins, a): memset(E, st, a[0], a[1], a[2]); return a[0]
@ext('memcmp', 'bcmp', 'strcmp')
def _(E, st, act, ins, a):
    if ins[3][1] == '@strcmp':
        x = cstr(E, st, a[0]); y = cstr(E, st, a[1]); return (x > y) - (x < y) & MASK[32]
    n = simp(E, st, a[2])
    if not isinstance(n, int): raise Unsupported('memcmp')
    for k in range(n):
        x = E.read(st, a[0] + k, 1); y = E.read(st, a[1] + k, 1)
        if isinstance(x, int) and isinstance(y, int):
            if x != y: return (1 if x > y else MASK[32])
        else: raise Unsupported('memcmp of symbolic bytes')
    return 0

# ---------------- C++ runtime ----------------
@ext('__cxa_atexit', '__cxa_thread_atexit')
def _(E, st, act, ins, a): return 0
@ext('__cxa_guard_acquire')
def _(E, st, act, ins, a): return int(E.read(st, a[0], 1) == 0)
@ext('__cxa_guard_release')
def _(E, st, act, ins, a): E.write(st, a[0], 1, 1)
@ext('__cxa_guard_abort')
def _(E, st, act, ins, a): return None
@ext('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def _(E, st, act, ins, a): return None
@ext('_ZSt9terminatev', '__clang_call_terminate')
def _(E, st, act, ins, a): raise Refuted('terminate', 'std::terminate is called')
@ext('abort')
def _(E, st, act, ins, a): raise Refuted('abort', 'abort() is called')
@ext('__cxa_pure_virtual')
def _(E, st, act, ins, a): raise Refuted('abort', 'pure virtual call')
def qassert(E, st, act, ins, a):
    raise Refuted('assertion', 'assertion fails: %s (%s:%s)' % (cstr(E, st, a[0]), cstr(E, st, a[1]), a[2]))
TABLE['@_Z9qt_assertPKcS0_i'] = qassert
@ext('_Z11qt_assert_xPKcS0_S0_i')
def _(E, st, act, ins, a): raise Refuted('assertion', 'assertion fails: %s %s' % (cstr(E, st, a[0]), cstr(E, st, a[1])))
@ext('_Z17qt_check_pointerPKci')
def _(E, st, act, ins, a): return None
@ext('__cxa_allocate_exception')
def _(E, st, act, ins, a): return E.alloc(st, a[0], 'exc', 'exception object')
@ext('__cxa_free_exception')
def _(E, st, act, ins, a): do_delete(E, st, a[0], ('exc',))
@ext('__cxa_throw')
def _(E, st, act, ins, a):
    obj, ti, dtor = a
    st.excs[obj] = dict(primary=obj, tinfo=ti, dtor=dtor, refs=1, hc=0)
    E.unwind(st, obj); return NORET
@ext('__cxa_init_primary_exception')     # std::make_exception_ptr: an exception object that is not being thrown
def _(E, st, act, ins, a):
    obj, ti, dtor = a
    st.excs[obj] = dict(primary=obj, tinfo=ti, dtor=dtor, refs=0, hc=0)
    return obj
@ext('__cxa_begin_catch')
def _(E, st, act, ins, a):
    H = a[0]; e = dict(st.excs[H]); e['hc'] = abs(e['hc']) + 1; st.excs[H] = e
    st.caught.append(H)
    return e['primary']
@ext('__cxa_get_exception_ptr')
def _(E, st, act, ins, a): return st.excs[a[0]]['primary']
def release(E, st, prim):
    """drop a reference; returns True when a destructor activation was pushed (finishing the call itself)"""
    e = dict(st.excs[prim]); e['refs'] -= 1; st.excs[prim] = e
    if e['refs'] > 0: return False
    def free(E, st, v=None):
        o = E.wobj(st, prim >> 32); o.live = False; o.cells = {}
    if e['dtor']:
        k = E.faddr.get(e['dtor'] >> 32)
        if k and k[0] == 'fn':
            def hook(E, st, v): free(E, st); E.finish_call(st, None)
            E.call_function(st, k[1], [prim], hook); return True
        if k and k[1] not in EXTDTOR: raise Unsupported('exception destructor ' + k[1])
    free(E, st); return False
EXTDTOR = {'@_ZNSt13runtime_errorD1Ev', '@_ZNSt11logic_errorD1Ev', '@_ZNSt9exceptionD1Ev', '@_ZNSt12out_of_rangeD1Ev', '@_ZNSt16invalid_argumentD1Ev',
           '@_ZNSt18bad_variant_accessD1Ev', '@_ZNSt9bad_allocD1Ev', '@_ZNSt19bad_optional_accessD1Ev'}
@ext('__cxa_end_catch')
def _(E, st, act, ins, a):
    if not st.caught: return None     # foreign/finished
    H = st.caught[-1]; e = dict(st.excs[H])
    if e['hc'] < 0:      # being rethrown
        e['hc'] += 1; st.excs[H] = e
        if e['hc'] == 0: st.caught.pop()
        else: st.caught.pop()
        return None
    e['hc'] -= 1; st.excs[H] = e; st.caught.pop()
    if e['hc'] == 0:
        prim = e['primary']
        if release(E, st, prim): return NORET
    return None
@ext('__cxa_rethrow')
def _(E, st, act, ins, a):
    if not st.caught: raise Refuted('terminate', 'rethrow without a current exception')
    H = st.caught[-1]; e = dict(st.excs[H]); e['hc'] = -e['hc']; st.excs[H] = e
    E.unwind(st, H); return NORET
@ext('_ZSt17current_exceptionv')
def _(E, st, act, ins, a):
    p = 0
    if st.caught:
        p = st.excs[st.caught[-1]]['primary']
        e = dict(st.excs[p]); e['refs'] += 1; st.excs[p] = e
    E.write(st, a[0], 8, p)
@ext('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def _(E, st, act, ins, a):
    p = E.read(st, a[0], 8)
    if p == 0: raise Refuted('terminate', 'rethrow of a null exception_ptr')
    if p not in st.excs: raise Refuted('memory-safety', 'rethrow of garbage')
    e = dict(st.excs[p]); e['refs'] += 1; st.excs[p] = e
    H = E.alloc(st, 8, 'exchdr', 'dependent exception')
    st.excs[H] = dict(primary=p, hc=0)
    E.unwind(st, H); return NORET
@ext('_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv')
def _(E, st, act, ins, a):
    p = E.read(st, a[0], 8)
    if p is UNDEF: raise Refuted('uninitialised-value', 'exception_ptr uninitialised')
    if p: e = dict(st.excs[p]); e['refs'] += 1; st.excs[p] = e
@ext('_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv')
def _(E, st, act, ins, a):
    p = E.read(st, a[0], 8)
    if p is UNDEF: raise Refuted('uninitialised-value', 'exception_ptr uninitialised')
    if p:
        E.write(st, a[0], 8, 0)
        if release(E, st, p): return NORET
@ext('_ZNSt15__exception_ptr13exception_ptrC1EPv')
def _(E, st, act, ins, a):
    E.write(st, a[0], 8, a[1])
    if a[1]: e = dict(st.excs[a[1]]); e['refs'] += 1; st.excs[a[1]] = e
@ext('_ZNSt15__exception_ptr13exception_ptr4swapERS0_')
def _(E, st, act, ins, a):
    x = E.read(st, a[0], 8); y = E.read(st, a[1], 8); E.write(st, a[0], 8, y); E.write(st, a[1], 8, x)
@ext('_ZSt19uncaught_exceptionsv')
def _(E, st, act, ins, a): return 0
def thrower(tname):
    def f(E, st, act, ins, a):
        p = E.alloc(st, 16, 'exc', 'library exception ' + tname)
        ti = E.addr_of(act.fn.mod, '@_ZTI' + tname)
        st.excs[p] = dict(primary=p, tinfo=ti, dtor=0, refs=1, hc=0)
        E.unwind(st, p); return NORET
    return f
TABLE['@_ZSt20__throw_length_errorPKc'] = thrower('St12length_error')
TABLE['@_ZSt17__throw_bad_allocv'] = thrower('St9bad_alloc')
TABLE['@_ZSt28__throw_bad_array_new_lengthv'] = thrower('St20bad_array_new_length')
TABLE['@_ZSt24__throw_out_of_range_fmtPKcz'] = thrower('St12out_of_range')
TABLE['@_ZSt20__throw_out_of_rangePKc'] = thrower('St12out_of_range')
TABLE['@_ZSt25__throw_bad_function_callv'] = thrower('St17bad_function_call')
@ext('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev')
def _(E, st, act, ins, a): return None
@ext('_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorC2EPKc', '_ZNSt11logic_errorC1EPKc', '_ZNSt11logic_errorC2EPKc', '_ZNSt13runtime_errorC1ERKS_', '_ZNSt13runtime_errorC2ERKS_')
def _(E, st, act, ins, a):
    if 'ERKS' in ins[3][1]:
        E.memcpy(st, a[0], a[1], 16); return
    E.write(st, a[0], 8, E.addr_of(act.fn.mod, '@_ZTVSt13runtime_error') + 16)
    E.write(st, E.padd(a[0], 8), 8, a[1])
@ext('_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD2Ev', '_ZNSt11logic_errorD2Ev')
def _(E, st, act, ins, a): return None
@ext('__dynamic_cast')
def _(E, st, act, ins, a):
    p, srct, dstt, hint = a
    if p == 0: return 0
    vt = E.read(st, p, 8)
    top = sym.sgn(E.read(st, vt - 16, 8), 64); ti = E.read(st, vt - 8, 8)
    off = E.derives(st, ti, dstt)
    return (p + top + off) & MASK[64] if off is not None else 0
@ext('sched_yield', 'pthread_self')
def _(E, st, act, ins, a): return 0

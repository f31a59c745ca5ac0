"""Symbolic scalar values. Concrete values are plain ints (masked); symbolic ones z3 BitVec/Bool."""
import z3

class _Undef:
    def __repr__(self): return 'undef'
    def __deepcopy__(self, m): return self
UNDEF = _Undef()

class SAddr:
    """Address inside one object at a symbolic byte offset."""
    __slots__ = ('base', 'off')
    def __init__(self, base, off): self.base = base; self.off = off
    def __repr__(self): return 'SAddr(%x,%s)' % (self.base, self.off)

class Comp:
    """Composite of byte pieces ((size, value|UNDEF), ...)."""
    __slots__ = ('pieces',)
    def __init__(self, pieces): self.pieces = tuple(pieces)
    def __repr__(self): return 'Comp%r' % (self.pieces,)

class OpaqueFloat:
    """Floating-point value that is only moved around."""
    def __init__(self, what): self.what = what
    def __repr__(self): return 'fp<%s>' % self.what

class Unsupported(Exception): pass

_fresh = [0]
def fresh(name, bits):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (name, _fresh[0]), bits)

def is_sym(v): return isinstance(v, z3.ExprRef)

def bv(v, n):
    if isinstance(v, int): return z3.BitVecVal(v, n)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    if isinstance(v, z3.BitVecRef):
        if v.size() != n: raise Unsupported('width %d vs %d' % (v.size(), n))
        return v
    if isinstance(v, SAddr): return z3.BitVecVal(v.base, 64) + v.off
    if isinstance(v, Comp):
        parts = [fresh('undef', 8 * s) if p is UNDEF else bv(p, 8 * s) for s, p in v.pieces]
        parts.reverse()
        return z3.Concat(*parts) if len(parts) > 1 else parts[0]
    if v is UNDEF: return fresh('undef', n)
    raise Unsupported('bv of %r' % (v,))

def boolv(v):
    """condition as int 0/1 or BoolRef"""
    if isinstance(v, int): return v & 1
    if isinstance(v, z3.BoolRef): return v
    if isinstance(v, z3.BitVecRef): return fold(z3.Extract(0, 0, v) == 1)
    raise Unsupported('bool of %r' % (v,))

def fold(e):
    """simplify; return python int when constant"""
    if isinstance(e, int): return e
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e

def sgn(v, n): return v - (1 << n) if v >> (n - 1) & 1 else v

def binop(op, n, a, b):
    m = (1 << n) - 1
    if isinstance(a, int) and isinstance(b, int):
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < n else UNDEF
        if op == 'lshr': return a >> b if b < n else UNDEF
        if op == 'ashr': return (sgn(a, n) >> b) & m if b < n else UNDEF
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0: return None  # caller reports
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        x, y = sgn(a, n), sgn(b, n)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        if op == 'sdiv': return q & m
        if op == 'srem': return (x - q * y) & m
        raise Unsupported(op)
    if isinstance(a, Comp) or isinstance(b, Comp):
        if isinstance(a, Comp) and isinstance(b, int):
            if op == 'lshr' and b % 8 == 0: return comp_extract(a, b // 8, n // 8 - b // 8, n // 8)
            if op == 'and' and b in (0xff, 0xffff, 0xffffffff):
                k = {0xff: 1, 0xffff: 2, 0xffffffff: 4}[b]
                return comp_extract(a, 0, k, n // 8)
    if a is UNDEF or b is UNDEF:
        if op == 'and' and (a == 0 or b == 0): return 0
        if op == 'and' and n >= 8 and (isinstance(a, int) or isinstance(b, int)): # one bit-field of an uninitialised unit: the others are arbitrary
            return fold(fresh('junk', n) & z3.BitVecVal(a if isinstance(a, int) else b, n))
        return UNDEF
    if isinstance(a, SAddr) or isinstance(b, SAddr):
        r = addr_arith(op, a, b)
        if r is not None: return r
    if n == 1:
        x = boolv(a); y = boolv(b)
        x = z3.BoolVal(bool(x)) if isinstance(x, int) else x
        y = z3.BoolVal(bool(y)) if isinstance(y, int) else y
        if op == 'and': return fold(z3.And(x, y))
        if op == 'or': return fold(z3.Or(x, y))
        if op in ('xor', 'add', 'sub'): return fold(z3.Xor(x, y))
        raise Unsupported('i1 ' + op)
    # identities
    if isinstance(b, int):
        if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if b == 0 and op in ('and', 'mul'): return 0
        if b == 1 and op in ('mul', 'sdiv', 'udiv'): return a
    if isinstance(a, int) and a == 0 and op in ('add', 'or', 'xor'): return b
    x = bv(a, n); y = bv(b, n)
    if op == 'add': r = x + y
    elif op == 'sub': r = x - y
    elif op == 'mul': r = x * y
    elif op == 'and': r = x & y
    elif op == 'or': r = x | y
    elif op == 'xor': r = x ^ y
    elif op == 'shl': r = x << y
    elif op == 'lshr': r = z3.LShR(x, y)
    elif op == 'ashr': r = x >> y
    elif op == 'udiv': r = z3.UDiv(x, y)
    elif op == 'urem': r = z3.URem(x, y)
    elif op == 'sdiv': r = x / y
    elif op == 'srem': r = z3.SRem(x, y)
    else: raise Unsupported(op)
    return fold(r)

def addr_arith(op, a, b):
    if op == 'add':
        if isinstance(a, SAddr) and not isinstance(b, SAddr): return SAddr(a.base, fold(a.off + bv(b, 64)) if not isinstance(a.off, int) else a.off)
        if isinstance(b, SAddr) and not isinstance(a, SAddr): return SAddr(b.base, fold(b.off + bv(a, 64)))
    if op == 'sub':
        if isinstance(a, SAddr) and isinstance(b, SAddr) and a.base == b.base: return fold(a.off - b.off)
        if isinstance(a, SAddr) and isinstance(b, int):
            if b >> 32 == a.base >> 32: return fold(a.off - z3.BitVecVal((b - a.base) & (2**64-1), 64))
            if b >> 32 in (0, 0xffffffff): return SAddr(a.base, fold(a.off - z3.BitVecVal(b, 64)))
        if isinstance(b, SAddr) and isinstance(a, int) and a >> 32 == b.base >> 32:
            return fold(z3.BitVecVal((a - b.base) & (2**64-1), 64) - b.off)
        if isinstance(a, SAddr) and is_sym(b): return SAddr(a.base, fold(a.off - b))
    return None

def icmp(pred, n, a, b):
    if isinstance(a, int) and isinstance(b, int):
        if pred == 'eq': return int(a == b)
        if pred == 'ne': return int(a != b)
        if pred == 'ult': return int(a < b)
        if pred == 'ule': return int(a <= b)
        if pred == 'ugt': return int(a > b)
        if pred == 'uge': return int(a >= b)
        x, y = sgn(a, n), sgn(b, n)
        return int({'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred])
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a, SAddr) or isinstance(b, SAddr):
        x = (a.base, a.off) if isinstance(a, SAddr) else None
        y = (b.base, b.off) if isinstance(b, SAddr) else None
        if x is None and isinstance(a, int): x = (y[0], z3.BitVecVal((a - y[0]) & (2**64-1), 64)) if a >> 32 == y[0] >> 32 else (a, None)
        if y is None and isinstance(b, int): y = (x[0], z3.BitVecVal((b - x[0]) & (2**64-1), 64)) if b >> 32 == x[0] >> 32 else (b, None)
        if x and y:
            if x[1] is not None and y[1] is not None and x[0] == y[0]: a, b = x[1], y[1]
            else:
                if pred == 'eq': return 0
                if pred == 'ne': return 1
                return icmp(pred, n, x[0], y[0])
    if n == 1:
        x = boolv(a); y = boolv(b)
        x = z3.BoolVal(bool(x)) if isinstance(x, int) else x
        y = z3.BoolVal(bool(y)) if isinstance(y, int) else y
        if pred == 'eq': return fold(x == y)
        if pred == 'ne': return fold(z3.Xor(x, y))
        a = bv(a, 1); b = bv(b, 1)
    x = bv(a, n); y = bv(b, n)
    if pred == 'eq': r = x == y
    elif pred == 'ne': r = x != y
    elif pred == 'ult': r = z3.ULT(x, y)
    elif pred == 'ule': r = z3.ULE(x, y)
    elif pred == 'ugt': r = z3.UGT(x, y)
    elif pred == 'uge': r = z3.UGE(x, y)
    elif pred == 'slt': r = x < y
    elif pred == 'sle': r = x <= y
    elif pred == 'sgt': r = x > y
    else: r = x >= y
    return fold(r)

def cast(op, n, v, m):
    """op from n bits to m bits"""
    if op == 'trunc':
        if isinstance(v, int): return v & ((1 << m) - 1)
        if v is UNDEF: return UNDEF
        if isinstance(v, Comp):
            if m % 8 == 0: return comp_extract(v, 0, m // 8, m // 8)
            x = comp_extract(v, 0, 1, 1)
            return cast('trunc', 8, x, m)
        if isinstance(v, SAddr): v = bv(v, 64)
        if isinstance(v, z3.BoolRef): return v
        if m == 1: return fold(z3.Extract(0, 0, v) == 1)
        return fold(z3.Extract(m - 1, 0, v))
    if op == 'zext':
        if isinstance(v, int): return v
        if v is UNDEF: return UNDEF
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, m), z3.BitVecVal(0, m))
        if isinstance(v, Comp): return Comp(v.pieces + ((m // 8 - n // 8, 0),))
        return fold(z3.ZeroExt(m - n, v))
    if op == 'sext':
        if isinstance(v, int): return sgn(v, n) & ((1 << m) - 1)
        if v is UNDEF: return UNDEF
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(-1, m), z3.BitVecVal(0, m))
        return fold(z3.SignExt(m - n, bv(v, n)))
    raise Unsupported(op)

def piece(v, size, off, ln):
    """bytes [off,off+ln) of a `size`-byte value"""
    if off == 0 and ln == size: return v
    if v is UNDEF: return UNDEF
    if isinstance(v, int): return (v >> (8 * off)) & ((1 << 8 * ln) - 1)
    if isinstance(v, Comp): return comp_extract(v, off, ln, ln)
    if isinstance(v, z3.BoolRef): v = bv(v, 8 * size)
    if isinstance(v, z3.BitVecRef): return fold(z3.Extract(8 * (off + ln) - 1, 8 * off, v))
    if isinstance(v, float):
        import struct
        return piece(int.from_bytes(struct.pack('<d' if size == 8 else '<f', v), 'little'), size, off, ln)
    raise Unsupported('partial access to %r' % (v,))

def combine(pieces):
    """pieces: list of (size, val) little endian -> value"""
    if len(pieces) == 1: return pieces[0][1]
    if all(isinstance(v, int) for s, v in pieces):
        r = 0; sh = 0
        for s, v in pieces: r |= v << sh; sh += 8 * s
        return r
    if all(v is UNDEF for s, v in pieces): return UNDEF
    if any(v is UNDEF or isinstance(v, (Comp, SAddr, float, OpaqueFloat)) for s, v in pieces):
        flat = []
        for s, v in pieces:
            if isinstance(v, Comp): flat.extend(v.pieces)
            else: flat.append((s, v))
        return Comp(flat)
    return fold(z3.Concat(*[bv(v, 8 * s) for s, v in reversed(pieces)]))

def comp_extract(c, off, ln, total):
    out = []; pos = 0
    for s, v in c.pieces:
        a = max(pos, off); b = min(pos + s, off + ln)
        if a < b: out.append((b - a, piece(v, s, a - pos, b - a)))
        pos += s
    if total > ln: out.append((total - ln, 0))
    return combine(out)

def val_eq(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, SAddr) and isinstance(b, SAddr): return a.base == b.base and val_eq(a.off, b.off)
    if isinstance(a, Comp) and isinstance(b, Comp):
        return len(a.pieces) == len(b.pieces) and all(x[0] == y[0] and val_eq(x[1], y[1]) for x, y in zip(a.pieces, b.pieces))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(val_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef): return False
    return type(a) == type(b) and a == b

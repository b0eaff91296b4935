"""Hash-consed terms: mathematical integers (polynomial normal form, explicit machine wrap), booleans,
doubles (arithmetic uninterpreted until lowered)."""
import struct, itertools
_tab = {}
_cnt = itertools.count(1)

class Term:
    __slots__ = ('op', 'a', 'sort', 'id', 'rng', '__weakref__')
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o
    def __lt__(self, o):
        return self.id < o.id
    def __repr__(self):
        return show(self)
    def __bool__(self):
        raise TypeError('symbolic term used as a Python bool: %s' % show(self))

INF = float('inf')

def mk(op, a, sort, rng=None):
    k = (op, a, sort)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a, t.sort, t.id = op, a, sort, next(_cnt)
        t.rng = rng if sort == 'I' else None
        _tab[k] = t
    return t

def I(n):
    return mk('int', int(n), 'I', (int(n), int(n)))

TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')

def Bc(b):
    return TRUE if b else FALSE

def var(name, sort='I', lo=None, hi=None):
    return mk('var', (name, lo, hi), sort, (-INF if lo is None else lo, INF if hi is None else hi))

_fresh = itertools.count(1)
def fresh(name, sort='I', lo=None, hi=None):
    return var('%s!%d' % (name, next(_fresh)), sort, lo, hi)

def uf(name, args, sort='I', lo=None, hi=None):
    args = tuple(args)
    return mk('uf', (name, args, lo, hi), sort, (-INF if lo is None else lo, INF if hi is None else hi))

def is_int(t):
    return t.op == 'int'

def cv(t):
    return t.a if t.op == 'int' else None

# ---------------------------------------------------------------- integers
def poly(t):
    """dict monomial -> coefficient; () is the constant"""
    if t.op == 'int':
        return {(): t.a} if t.a else {}
    if t.op == 'poly':
        return dict(t.a)
    return {(t,): 1}

def from_poly(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return I(0)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items.sort(key=lambda x: tuple(y.id for y in x[0]))
    lo = hi = 0
    for m, c in items:
        l, h = 1, 1
        for i, x in enumerate(m):
            a, b = x.rng
            if i and x is m[i - 1] and len(m) == 2:  # square
                l, h = (0 if l <= 0 <= h else min(l * l, h * h)), max(_m(l, l), _m(h, h))
                continue
            ps = [_m(l, a), _m(l, b), _m(h, a), _m(h, b)]
            l, h = min(ps), max(ps)
        l, h = (_m(c, l), _m(c, h)) if c > 0 else (_m(c, h), _m(c, l))
        lo, hi = lo + l, hi + h
    return mk('poly', tuple(items), 'I', (lo, hi))

def _m(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b

def add(*ts):
    d = {}
    for t in ts:
        for m, c in poly(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)

def scale(t, k):
    return from_poly({m: c * k for m, c in poly(t).items()})

def neg(t):
    return scale(t, -1)

def sub(a, b):
    return add(a, scale(b, -1))

def mul(a, b):
    if a.op == 'ite' and b.op == 'int':
        return ite(a.a[0], mul(a.a[1], b), mul(a.a[2], b))
    pa, pb = poly(a), poly(b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)

def fits(t, w, s):
    lo, hi = t.rng
    return (lo >= -(1 << (w - 1)) and hi < (1 << (w - 1))) if s else (lo >= 0 and hi < (1 << w))

def wrapc(n, w, s):
    n &= (1 << w) - 1
    if s and n >> (w - 1):
        n -= 1 << w
    return n

def _unwrap(t, w):
    """drop inner wraps of at least w bits (congruent mod 2^w)"""
    if t.op == 'wrap' and t.a[1] >= w:
        return _unwrap(t.a[0], w)
    if t.op == 'poly':
        ch = False
        d = {}
        for m, c in t.a:
            if any(x.op == 'wrap' and x.a[1] >= w for x in m):
                ch = True
                p = I(c)
                for x in m:
                    p = mul(p, _unwrap(x, w))
                for m2, c2 in poly(p).items():
                    d[m2] = d.get(m2, 0) + c2
            else:
                d[m] = d.get(m, 0) + c
        if ch:
            return from_poly(d)
    return t

def wrap(t, w, s):
    if t.op == 'int':
        return I(wrapc(t.a, w, s))
    if fits(t, w, s):
        return t
    u = _unwrap(t, w)
    if u is not t:
        if fits(u, w, s):
            return u
        t = u
    if t.op == 'ite':
        return ite(t.a[0], wrap(t.a[1], w, s), wrap(t.a[2], w, s))
    if t.op == 'poly':  # reduce the coefficients
        M = 1 << w
        d = {}
        for m, c in t.a:
            c2 = c % M
            if c2 > M // 2:
                c2 -= M
            d[m] = c2
        u = from_poly(d)
        if u is not t:
            return wrap(u, w, s)
    r = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    return mk('wrap', (t, w, s), 'I', r)

def fdiv_(a, n):
    """floor division by a positive constant"""
    if a.op == 'int':
        return I(a.a // n)
    if n == 1:
        return a
    p = poly(a)
    q, r = {}, {}
    for m, c in p.items():
        (q if c % n == 0 else r)[m] = c // n if c % n == 0 else c
    rt = from_poly(r)
    lo, hi = rt.rng
    if 0 <= lo and hi < n:
        return from_poly(q)
    if q:
        return add(from_poly(q), fdiv_(rt, n))
    if a.op == 'fdiv':
        return fdiv_(a.a[0], a.a[1] * n)
    if a.op == 'shr' and n & (n - 1) == 0:
        return shr(a.a[0], add(a.a[1], I(n.bit_length() - 1)))
    lo = lo if lo in (INF, -INF) else lo // n
    hi = hi if hi in (INF, -INF) else hi // n
    return mk('fdiv', (rt, n), 'I', (lo, hi))

def fmod_(a, n):
    """floor modulus by a positive constant"""
    if a.op == 'int':
        return I(a.a % n)
    lo, hi = a.rng
    if 0 <= lo and hi < n:
        return a
    r = from_poly({m: c % n for m, c in poly(a).items()})
    if r.op == 'int':
        return I(r.a % n)
    lo, hi = r.rng
    if 0 <= lo and hi < n:
        return r
    if r.op == 'fmod' and r.a[1] % n == 0:
        return fmod_(r.a[0], n)
    return mk('fmod', (r, n), 'I', (0, n - 1))

def tdiv(a, b):
    """C division (truncation)"""
    if is_int(a) and is_int(b) and b.a:
        q = abs(a.a) // abs(b.a)
        return I(q if (a.a < 0) == (b.a < 0) else -q)
    if is_int(b) and b.a > 0:
        if a.rng[0] >= 0:
            return fdiv_(a, b.a)
        return ite(le(I(0), a), fdiv_(a, b.a), neg(fdiv_(neg(a), b.a)))
    # a = q*b exactly
    if a.rng[0] >= 0 and b.rng[0] >= 0:
        q = exact_quot(a, b)
        if q is not None and b.rng[0] >= 1:
            return q
        return mk('sdiv', (a, b), 'I', (0, a.rng[1]))
    return mk('tdiv', (a, b), 'I', (-INF, INF))

def exact_quot(a, b):
    pa, pb = poly(a), poly(b)
    if len(pb) != 1:
        # try: every monomial group divisible?  handle a == c*b
        for m, c in pa.items():
            pass
        return None
    (mb, cb), = pb.items()
    d = {}
    for m, c in pa.items():
        if c % cb:
            return None
        m = list(m)
        for x in mb:
            if x not in m:
                return None
            m.remove(x)
        d[tuple(m)] = c // cb
    return from_poly(d)

def tmod(a, b):
    if is_int(a) and is_int(b) and b.a:
        r = abs(a.a) % abs(b.a)
        return I(r if a.a >= 0 else -r)
    if is_int(b) and b.a > 0:
        if a.rng[0] >= 0:
            return fmod_(a, b.a)
        return ite(le(I(0), a), fmod_(a, b.a), neg(fmod_(neg(a), b.a)))
    if a.rng[0] >= 0 and b.rng[0] >= 0:
        q = exact_quot(a, b)
        if q is not None and b.rng[0] >= 1:
            return I(0)
        return mk('smod', (a, b), 'I', (0, b.rng[1]))
    return mk('tmod', (a, b), 'I', (-INF, INF))

def shl(a, k):
    if is_int(k):
        return scale(a, 1 << k.a)
    if is_int(a) and a.a == 0:
        return a
    return mul(a, pow2(k))

def pow2(k):
    if is_int(k):
        return I(1 << k.a)
    lo, hi = k.rng
    return mk('pow2', (k,), 'I', (1 << lo if 0 <= lo < 128 else 1, 1 << hi if 0 <= hi < 128 else INF))

def shr(a, k):
    """arithmetic shift right == floor(a / 2^k)"""
    if is_int(k):
        return fdiv_(a, 1 << k.a)
    if a.op == 'shr':
        return shr(a.a[0], add(a.a[1], k))
    if is_int(a) and a.a == 0:
        return a
    lo, hi = a.rng
    return mk('shr', (a, k), 'I', (min(lo, 0) if lo < 0 else 0, max(hi, 0)))

def _mask_runs(m):
    runs, i = [], 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            runs.append((i, j - i))
            i = j
        else:
            i += 1
    return runs

def band(a, b):
    if is_int(a):
        a, b = b, a
    if is_int(a):
        return I(a.a & b.a)
    if is_int(b):
        m = b.a
        if m == 0:
            return I(0)
        if m == -1:
            return a
        if m < 0:
            # every bit from h up, and the runs below it
            h = (~m).bit_length()
            low = m & ((1 << h) - 1)
            top = scale(fdiv_(a, 1 << h), 1 << h)
            return add(top, band(a, I(low))) if low else top
        return add(*[scale(fmod_(fdiv_(a, 1 << lo), 1 << n), 1 << lo) for lo, n in _mask_runs(m)])
    if a is b:
        return a
    a, b = sorted((a, b))
    if a.rng[0] >= 0 and b.rng[0] >= 0:
        # bits disjoint?
        la, lb = lowbits(a), lowbits(b)
        if la[1] <= lb[0] or lb[1] <= la[0]:
            return I(0)
        return mk('band', (a, b), 'I', (0, min(a.rng[1], b.rng[1])))
    return mk('band', (a, b), 'I', (-INF, INF))

def lowbits(t):
    """(number of trailing zero bits known, bit length bound)"""
    tz = 64
    for m, c in poly(t).items():
        tz = min(tz, (c & -c).bit_length() - 1)
    hi = t.rng[1]
    return tz, (int(hi).bit_length() if hi != INF else 10**6)

def bor(a, b):
    if is_int(a) and is_int(b):
        return I(a.a | b.a)
    return sub(add(a, b), band(a, b))

def bxor(a, b):
    if is_int(a) and is_int(b):
        return I(a.a ^ b.a)
    return sub(add(a, b), scale(band(a, b), 2))

def bnot(a):
    return sub(I(-1), a)

# ---------------------------------------------------------------- booleans
def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'le0':  # not (d <= 0)  ==  1 - d <= 0
        return _le0(sub(I(1), t.a[0]))
    return mk('not', (t,), 'B')

def _flat(op, ts):
    out, seen = [], set()
    for t in ts:
        for x in (t.a if t.op == op else (t,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    return out, seen

def and_(*ts):
    out, seen = _flat('and', ts)
    if FALSE in seen:
        return FALSE
    out = [x for x in out if x is not TRUE]
    for x in out:
        if not_(x) in seen:
            return FALSE
    # x & (y | ...) : drop disjunctions implied, shrink disjunctions refuted
    res = []
    ch = False
    for x in out:
        if x.op == 'or':
            if any(y in seen for y in x.a):
                ch = True
                continue
            keep = [y for y in x.a if not_(y) not in seen]
            if len(keep) != len(x.a):
                ch = True
                x = or_(*keep)
        res.append(x)
    if ch:
        return and_(*res)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(sorted(out)), 'B')

def or_(*ts):
    out, seen = _flat('or', ts)
    if TRUE in seen:
        return TRUE
    out = [x for x in out if x is not FALSE]
    for x in out:
        if not_(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # factor common conjuncts: (a&b)|(a&~b) = a&(b|~b)
    if len(out) <= 6 and all(x.op == 'and' for x in out):
        com = set(out[0].a)
        for x in out[1:]:
            com &= set(x.a)
        if com:
            rest = or_(*[and_(*[y for y in x.a if y not in com]) for x in out])
            return and_(*com, rest)
    # absorption: a | (~a & b) = a | b ; a | (a & b) = a
    res, ch = [], False
    for x in out:
        if x.op == 'and':
            if any(y in seen for y in x.a):
                ch = True
                continue
            keep = [y for y in x.a if not_(y) not in seen]
            if len(keep) != len(x.a):
                ch = True
                x = and_(*keep)
        res.append(x)
    if ch:
        return or_(*res)
    return mk('or', tuple(sorted(out)), 'B')

def implies(a, b):
    return or_(not_(a), b)

def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a is not_(b):
        return FALSE
    return mk('iff', tuple(sorted((a, b))), 'B')

def _isconst(t):
    return t.op in ('int', 'dbl', 'true', 'false')

def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if b.op == 'ite' and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if a.sort == 'I' and (a.op == 'poly' or b.op == 'poly'):
        # pull out a common part: ite(c, x+p, x+q)
        pa, pb = poly(a), poly(b)
        com = {m: k for m, k in pa.items() if m != () and pb.get(m) == k}
        if com:
            x = from_poly(com)
            return add(x, ite(c, sub(a, x), sub(b, x)))
    r = None
    if a.sort == 'I':
        r = (min(a.rng[0], b.rng[0]), max(a.rng[1], b.rng[1]))
    return mk('ite', (c, a, b), a.sort, r)

def _single_ite(d):
    """d = c*ite(g, x, y) + k -> (g, d1, d2)"""
    if d.op == 'ite':
        return d.a
    if d.op == 'poly':
        it = [m for m, c in d.a if len(m) == 1 and m[0].op == 'ite']
        if len(it) == 1 and all(m == () or m == it[0] for m, c in d.a):
            t = it[0][0]
            p = dict(d.a)
            c = p.pop((t,))
            k = from_poly(p)
            return t.a[0], add(scale(t.a[1], c), k), add(scale(t.a[2], c), k)
    return None

def _le0(d):
    lo, hi = d.rng
    if hi <= 0:
        return TRUE
    if lo > 0:
        return FALSE
    s = _single_ite(d)
    if s and (s[1].op == 'int' or s[2].op == 'int'):
        return ite(s[0], _le0(s[1]), _le0(s[2]))
    p = poly(d)
    g = 0
    import math
    for m, c in p.items():
        if m != ():
            g = math.gcd(g, c)
    if g > 1:
        k = p.get((), 0)
        d = from_poly({m: (c // g if m != () else -((-c) // g)) for m, c in p.items()})
    return mk('le0', (d,), 'B')

def le(a, b):
    return _le0(sub(a, b))

def lt(a, b):
    return _le0(add(sub(a, b), I(1)))

def eq(a, b):
    if a.sort == 'B':
        return iff(a, b)
    if a.sort == 'D':
        return same(a, b)
    d = sub(a, b)
    if d.op == 'int':
        return Bc(d.a == 0)
    lo, hi = d.rng
    if lo > 0 or hi < 0:
        return FALSE
    s = _single_ite(d)
    if s and (s[1].op == 'int' or s[2].op == 'int'):
        return ite(s[0], eq(s[1], I(0)), eq(s[2], I(0)))
    p = poly(d)
    import math
    g = 0
    for m, c in p.items():
        if m != ():
            g = math.gcd(g, c)
    if p.get((), 0) % g:
        return FALSE
    lead = [c for m, c in sorted(p.items(), key=lambda x: tuple(y.id for y in x[0])) if m != ()][0]
    if lead < 0:
        g = -g
    if g != 1:
        d = from_poly({m: c // g for m, c in p.items()})
    return mk('eq0', (d,), 'B')

def ne(a, b):
    return not_(eq(a, b))

# ---------------------------------------------------------------- doubles
def D(x):
    if isinstance(x, float) or isinstance(x, int):
        x = struct.unpack('<Q', struct.pack('<d', float(x)))[0]
        return mk('dbl', x, 'D')
    raise TypeError

def Dbits(b):
    return mk('dbl', int(b), 'D')

def dval(t):
    return struct.unpack('<d', struct.pack('<Q', t.a))[0]

_COMM = {'fadd', 'fmul'}
def _pow2(t):
    """a constant power of two whose reciprocal is exact"""
    return t.op == 'dbl' and t.a & ((1 << 52) - 1) == 0 and 1 < t.a >> 52 & 2047 < 2045
import math
def dop(name, *args):
    if all(x.op == 'dbl' for x in args):
        v = [dval(x) for x in args]
        try:
            if name == 'fadd': return D(v[0] + v[1])
            if name == 'fsub': return D(v[0] - v[1])
            if name == 'fmul': return D(v[0] * v[1])
            if name == 'fdiv' and v[1] != 0: return D(v[0] / v[1])
            if name == 'fneg': return Dbits(args[0].a ^ (1 << 63))
            if name == 'fabs': return D(abs(v[0]))
        except OverflowError:
            pass
    # the same operation in one form: IEEE results are equal bit by bit (up to NaN payloads)
    if name == 'fdiv' and _pow2(args[1]):
        name, args = 'fmul', (args[0], D(1.0 / dval(args[1])))
    if name == 'fsub' and args[1].op == 'dbl':
        name, args = 'fadd', (args[0], Dbits(args[1].a ^ (1 << 63)))
    if name == 'fadd' and args[0] is args[1]:
        name, args = 'fmul', (args[0], D(2.0))
    if name == 'fmul' and D(1.0) in args:
        return args[0] if args[1] is D(1.0) else args[1]
    if name in _COMM:
        args = tuple(sorted(args))
    if name == 'fneg' and args[0].op == 'dop' and args[0].a[0] == 'fneg':
        return args[0].a[1][0]
    return mk('dop', (name, tuple(args)), 'D')

def i2d(t):
    if t.op == 'int' and abs(t.a) < (1 << 53):
        return D(float(t.a))
    return mk('i2d', (t,), 'D')

def d2i(t):
    """truncation towards zero, as a mathematical integer"""
    if t.op == 'dbl':
        v = dval(t)
        if v == v and abs(v) != INF:
            return I(int(v))
    if t.op == 'i2d' and t.a[0].rng[0] >= -(1 << 53) and t.a[0].rng[1] <= 1 << 53:
        return t.a[0]
    return mk('d2i', (t,), 'I', (-INF, INF))

def dcmp(op, a, b):
    """op in lt, le, eq"""
    if a.op == 'dbl' and b.op == 'dbl':
        x, y = dval(a), dval(b)
        return Bc(x < y if op == 'lt' else x <= y if op == 'le' else x == y)
    if a.op == 'ite' and b.op == 'dbl' and _isconst(a.a[1]) and _isconst(a.a[2]):
        return ite(a.a[0], dcmp(op, a.a[1], b), dcmp(op, a.a[2], b))
    if op == 'eq':
        a, b = sorted((a, b))
    return mk('dcmp', (op, a, b), 'B')

def same(a, b):
    """equality of double values as data (same bits up to NaN payload)"""
    if a is b:
        return TRUE
    if a.op == 'dbl' and b.op == 'dbl':
        return Bc(a.a == b.a)
    a, b = sorted((a, b))
    return mk('same', (a, b), 'B')

def isnan(a):
    return not_(dcmp('eq', a, a))

def byte(v, i):
    """byte i (0 = least significant) of the two's complement representation"""
    if v.op == 'int':
        return I((v.a >> (8 * i)) & 255)
    if i == 0 and v.rng[0] >= 0 and v.rng[1] <= 255:
        return v
    if v.op == 'ite':
        return ite(v.a[0], byte(v.a[1], i), byte(v.a[2], i))
    if v.rng[0] >= 0 and v.rng[1] < (1 << (8 * i)):
        return I(0)
    if i == 0 and v.rng[0] >= -128 and v.rng[1] <= 127:
        return wrap(v, 8, False)
    return mk('byte', (v, i), 'I', (0, 255))

def frombytes(bs):
    """unsigned little-endian integer"""
    n = len(bs)
    if n == 1:
        return bs[0]
    b0 = bs[0]
    cs = [b.a[0] for b in bs if b.op == 'ite']
    if cs:
        c = cs[0]
        x = [b.a[1] if b.op == 'ite' and b.a[0] is c else b for b in bs]
        y = [b.a[2] if b.op == 'ite' and b.a[0] is c else b for b in bs]
        if all(b.op != 'ite' or b.a[0] is c for b in bs):
            return ite(c, frombytes(x), frombytes(y))
    vs = [b.a[0] for b in bs if b.op == 'byte']
    if vs:
        v = vs[0]
        if all(byte(v, i) is b for i, b in enumerate(bs)):
            return wrap(v, 8 * n, False)
    return add(*[scale(b, 1 << (8 * i)) for i, b in enumerate(bs)])

def dbyte(d, i):
    if d.op == 'dbl':
        return I((d.a >> (8 * i)) & 255)
    if d.op == 'dfrom':
        return d.a[i]
    if d.op == 'ite':
        return ite(d.a[0], dbyte(d.a[1], i), dbyte(d.a[2], i))
    return mk('dbyte', (d, i), 'I', (0, 255))

def dfrom(bs):
    if all(b.op == 'int' for b in bs):
        return Dbits(sum(b.a << (8 * i) for i, b in enumerate(bs)))
    cs = [b.a[0] for b in bs if b.op == 'ite']
    if cs:
        c = cs[0]
        if all(b.op != 'ite' or b.a[0] is c for b in bs):
            return ite(c, dfrom([b.a[1] if b.op == 'ite' else b for b in bs]), dfrom([b.a[2] if b.op == 'ite' else b for b in bs]))
    vs = [b.a[0] for b in bs if b.op == 'dbyte']
    if vs and all(dbyte(vs[0], i) is b for i, b in enumerate(bs)):
        return vs[0]
    return mk('dfrom', tuple(bs), 'D')

# ---------------------------------------------------------------- traversal
def kids(t):
    op = t.op
    if op in ('int', 'var', 'dbl', 'true', 'false'):
        return ()
    if op == 'poly':
        return tuple(x for m, c in t.a for x in m)
    if op == 'uf':
        return t.a[1]
    if op == 'dop':
        return t.a[1]
    return tuple(x for x in t.a if isinstance(x, Term))

def rebuild(t, f):
    op, a = t.op, t.a
    if op in ('int', 'var', 'dbl', 'true', 'false'):
        return t
    if op == 'poly':
        out = []
        for m, c in a:
            p = I(c)
            for x in m:
                p = mul(p, f(x))
            out.append(p)
        return add(*out)
    if op == 'uf':
        return uf(a[0], [f(x) for x in a[1]], t.sort, a[2], a[3])
    if op == 'dop':
        return dop(a[0], *[f(x) for x in a[1]])
    if op == 'wrap':
        return wrap(f(a[0]), a[1], a[2])
    if op == 'fdiv':
        return fdiv_(f(a[0]), a[1])
    if op == 'fmod':
        return fmod_(f(a[0]), a[1])
    g = {'sdiv': tdiv, 'tdiv': tdiv, 'smod': tmod, 'tmod': tmod, 'pow2': pow2, 'shr': shr, 'band': band, 'not': not_,
         'and': and_, 'or': or_, 'iff': iff, 'ite': ite, 'i2d': i2d, 'd2i': d2i, 'same': same}
    if op in g:
        return g[op](*[f(x) for x in a])
    if op == 'byte':
        return byte(f(a[0]), a[1])
    if op == 'dbyte':
        return dbyte(f(a[0]), a[1])
    if op == 'dfrom':
        return dfrom([f(x) for x in a])
    if op == 'le0':
        return _le0(f(a[0]))
    if op == 'eq0':
        return eq(f(a[0]), I(0))
    if op == 'dcmp':
        return dcmp(a[0], f(a[1]), f(a[2]))
    raise ValueError(op)

def subst(t, m, memo=None):
    """m: dict Term -> Term"""
    if memo is None:
        memo = {}
    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go) if occurs_any(x, m) else x
            memo[x] = r
        return r
    return go(t)

_fv = {}
def atoms(t):
    """frozenset of variables and fold symbols occurring in t"""
    r = _fv.get(t)
    if r is None:
        if t.op == 'var':
            r = frozenset((t,))
        else:
            r = frozenset().union(*[atoms(x) for x in kids(t)]) if kids(t) else frozenset()
        _fv[t] = r
    return r

def occurs_any(t, m):
    at = atoms(t)
    for x in m:
        if x.op == 'var':
            if x in at:
                return True
        else:
            return True
    return False

def occurs(x, t):
    return x in atoms(t)

def show(t, d=0):
    op, a = t.op, t.a
    if d > 12:
        return '..'
    if op == 'int':
        return str(a)
    if op == 'var':
        return a[0]
    if op == 'dbl':
        return repr(dval(t))
    if op in ('true', 'false'):
        return op
    if op == 'poly':
        return '(' + ' + '.join(('%s' % c if m == () else (('%d*' % c) if c != 1 else '') + '*'.join(show(x, d + 1) for x in m)) for m, c in a) + ')'
    if op == 'uf':
        return a[0] + ('(' + ', '.join(show(x, d + 1) for x in a[1]) + ')' if a[1] else '')
    if op == 'dop':
        return a[0] + '(' + ', '.join(show(x, d + 1) for x in a[1]) + ')'
    if op == 'le0':
        return '%s <= 0' % show(a[0], d + 1)
    if op == 'eq0':
        return '%s == 0' % show(a[0], d + 1)
    if op == 'dcmp':
        return '%s %s %s' % (show(a[1], d + 1), {'lt': '<', 'le': '<=', 'eq': '=='}[a[0]], show(a[2], d + 1))
    return op + '(' + ', '.join(show(x, d + 1) if isinstance(x, Term) else str(x) for x in a) + ')'

"""Values of the symbolic executor: terms, records, sequences (vectors, strings, arrays), maps, optionals,
pointers, iterators.  Sequences are lists of parts: literals, tabulations (forall k < n: f(k)), concatenations over an
index (Flat), conditional parts (Alt) and placeholders (Hole, only inside loop discovery)."""
import hashlib
from .term import *

class Limit(Exception):
    """the construct is outside what this verifier can express"""

class V:
    __slots__ = ()

class Rec(V):
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f):
        self.cls, self.f = cls, f
    def set(self, k, v):
        g = dict(self.f)
        g[k] = v
        return Rec(self.cls, g)
    def __repr__(self):
        return '%s{%s}' % (self.cls, ', '.join('%s=%r' % (k.split('::')[-1], v) for k, v in self.f.items()))

class Opt(V):
    __slots__ = ('has', 'val')
    def __init__(self, has, val):
        self.has, self.val = has, val

class Ptr(V):
    """pointer to an lvalue that is not a heap object (None: null)"""
    __slots__ = ('lv',)
    def __init__(self, lv):
        self.lv = lv
    def __repr__(self):
        return 'Ptr%r' % (self.lv,)

class BytesPtr(V):
    """char * view of the scalar at lv"""
    __slots__ = ('lv', 't')
    def __init__(self, lv, t):
        self.lv, self.t = lv, t

class It(V):
    """iterator: position pos in the sequence or enumeration of the container at lv"""
    __slots__ = ('kind', 'lv', 'pos', 'snap')
    def __init__(self, kind, lv, pos, snap=None):
        self.kind, self.lv, self.pos, self.snap = kind, lv, pos, snap

class MIt(V):
    """map iterator returned by find: valid when has"""
    __slots__ = ('lv', 'key', 'has')
    def __init__(self, lv, key, has):
        self.lv, self.key, self.has = lv, key, has

class BackIt(V):
    __slots__ = ('lv', 'kind')
    def __init__(self, lv, kind='vec'):
        self.lv, self.kind = lv, kind

class Lam(V):
    __slots__ = ('node', 'caps', 'this', 'clsid')
    def __init__(self, node, caps, this):
        self.node, self.caps, self.this = node, caps, this

class Fn(V):
    __slots__ = ('f',)
    def __init__(self, f):
        self.f = f

class Str(V):
    """string literal as const char *"""
    __slots__ = ('b',)
    def __init__(self, b):
        self.b = b

class Opaque(V):
    __slots__ = ('why',)
    def __init__(self, why=''):
        self.why = why

class VIte(V):
    """conditional between values that have no common representation (pointers, iterators)"""
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

# ------------------------------------------------------------------ sequences
class Lit:
    __slots__ = ('vals',)
    def __init__(self, vals):
        self.vals = tuple(vals)
class Tab:
    __slots__ = ('n', 'k', 'body')
    def __init__(self, n, k, body):
        self.n, self.k, self.body = n, k, body
class Flat:
    __slots__ = ('n', 'k', 'body')   # body: Seq
    def __init__(self, n, k, body):
        self.n, self.k, self.body = n, k, body
class Alt:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
class Hole:
    __slots__ = ('id', 'n')
    def __init__(self, id, n):
        self.id, self.n = id, n

class Seq(V):
    __slots__ = ('parts', '_len', '_key')
    def __init__(self, parts=()):
        out = []
        for p in parts:
            if isinstance(p, Lit):
                if not p.vals:
                    continue
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].vals + p.vals)
                    continue
            elif isinstance(p, (Tab, Flat)):
                if p.n is I(0):
                    continue
                if p.n.op == 'int' and isinstance(p, Flat) and p.n.a <= 64:
                    for i in range(p.n.a):
                        for q in vsubst(p.body, {p.k: I(i)}).parts:
                            if isinstance(q, Lit) and out and isinstance(out[-1], Lit):
                                out[-1] = Lit(out[-1].vals + q.vals)
                            else:
                                out.append(q)
                    continue
                if isinstance(p, Flat):
                    b = p.body.parts
                    if not b:
                        continue
                    if len(b) == 1 and isinstance(b[0], Lit) and len(b[0].vals) == 1:
                        p = Tab(p.n, p.k, b[0].vals[0])
                if isinstance(p, Tab) and p.n.op == 'int' and p.n.a <= 64:
                    vals = tuple(vsubst(p.body, {p.k: I(i)}) for i in range(p.n.a))
                    if out and isinstance(out[-1], Lit):
                        out[-1] = Lit(out[-1].vals + vals)
                    else:
                        out.append(Lit(vals))
                    continue
                if isinstance(p, Tab) and out and isinstance(out[-1], Tab):
                    # consecutive pieces of one tabulation
                    q = out[-1]
                    b = vsubst(q.body, {q.k: add(p.k, q.n)})
                    if p.n.op != 'int' and q.n.op != 'int' and vkey(b) == vkey(p.body):
                        out[-1] = Tab(add(q.n, p.n), q.k, q.body)
                        continue
            elif isinstance(p, Alt):
                if p.c is TRUE or p.c is FALSE:
                    for q in (p.a if p.c is TRUE else p.b).parts:
                        if isinstance(q, Lit) and out and isinstance(out[-1], Lit):
                            out[-1] = Lit(out[-1].vals + q.vals)
                        else:
                            out.append(q)
                    continue
                if not p.a.parts and not p.b.parts:
                    continue
            out.append(p)
        self.parts = tuple(out)
        self._len = None
        self._key = None
    @property
    def n(self):
        if self._len is None:
            self._len = add(*[part_len(p) for p in self.parts]) if self.parts else I(0)
        return self._len
    def __repr__(self):
        return '[' + ' ++ '.join(show_part(p) for p in self.parts) + ']'

def show_part(p):
    if isinstance(p, Lit):
        return 'Lit' + repr(list(p.vals))
    if isinstance(p, (Tab, Flat)):
        return '%s(%s<%s: %r)' % (type(p).__name__, p.k, p.n, p.body)
    if isinstance(p, Alt):
        return 'Alt(%s, %r, %r)' % (p.c, p.a, p.b)
    return 'Hole%s' % p.id

_ghost = {}
GHOST = {}   # name -> definition record, for the fact generator
def ghost(tag, bound, terms, sort='I', lo=None, hi=None, extra=()):
    """a function symbol determined by `terms` (with `bound` variables), applied to their free variables"""
    free, seen = [], set(bound)
    def go(t):
        if t in done:
            return
        done.add(t)
        if t.op == 'var':
            if t not in seen:
                seen.add(t)
                free.append(t)
            return
        ks = kids(t)
        if t.op in ('and', 'or', 'poly', 'eq0', 'iff', 'same') and len(ks) > 1:
            ks = sorted(ks, key=shape)   # not by age: equal terms number their variables alike
        for x in ks:
            go(x)
    done, shapes = set(), {}
    def shape(t):
        r = shapes.get(t)
        if r is None:
            h = hashlib.blake2b(t.op.encode(), digest_size=12)
            if t.op == 'var':
                h.update(b'b%d' % list(bound).index(t) if t in bound else b'f' + t.sort.encode())
            elif t.op == 'poly':
                for q in sorted((sorted(shape(y) for y in m), c) for m, c in t.a):
                    h.update(repr(q).encode())
            else:
                cs = [shape(x) for x in kids(t)]
                if t.op in ('and', 'or', 'iff', 'same'):
                    cs.sort()
                for x in cs:
                    h.update(x)
                h.update(repr([x for x in (t.a if isinstance(t.a, tuple) else (t.a,)) if isinstance(x, (str, int, float))]).encode())
            r = shapes[t] = h.digest()
        return r
    for t in terms:
        go(t)
    while True:
        m = {}
        for i, v in enumerate(free):
            m[v] = var('%%f%d' % i, v.sort, None, None) if v.sort == 'I' else var('%%f%d' % i, v.sort, v.a[1], v.a[2])
        for i, v in enumerate(bound):
            m[v] = var('%%b%d' % i, v.sort, 0, None) if i == 0 else var('%%b%d' % i, v.sort, v.a[1], v.a[2])
        canon = tuple(subst(t, m) for t in terms)
        used = frozenset().union(*[atoms(t) for t in canon])
        if all(m[v] in used for v in free):
            break
        free = [v for v in free if m[v] in used]
    k = (tag, canon, len(extra))
    nm = _ghost.get(k)
    if nm is None:
        nm = '%s#%d' % (tag, len(_ghost))
        _ghost[k] = nm
        GHOST[nm] = dict(tag=tag, canon=canon, free=[m[v] for v in free], bound=[m[v] for v in bound], n=len(extra))
    return uf(nm, list(extra) + free, sort, lo, hi)

def sibling(tag, t, sort, lo=None, hi=None, extra=None):
    """the ghost with another tag (or bound) but the same defining terms as the occurrence t"""
    d = GHOST[t.a[0]]
    k = (tag, d['canon'], d['n'])
    nm = _ghost.get(k)
    if nm is None:
        nm = '%s#%d' % (tag, len(_ghost))
        _ghost[k] = nm
        GHOST[nm] = dict(d, tag=tag)
    ext, fr = t.a[1][:d['n']], t.a[1][d['n']:]
    return uf(nm, list(ext if extra is None else extra) + list(fr), sort, lo, hi)

def summ(n, k, g):
    """sum of g over 0 <= k < n"""
    if k not in atoms(g):
        return mul(clamp0(n), g)
    if g.op == 'ite' and g.a[1] is I(1) and g.a[2] is I(0):
        pass
    r = ghost('sum', [k], [g], 'I', 0 if g.rng[0] >= 0 else None, None, extra=[n])
    return r

def clamp0(n):
    return n if n.rng[0] >= 0 else ite(le(I(0), n), n, I(0))

def part_len(p):
    if isinstance(p, Lit):
        return I(len(p.vals))
    if isinstance(p, Tab):
        return p.n
    if isinstance(p, Flat):
        return summ(p.n, p.k, p.body.n)
    if isinstance(p, Alt):
        return ite(p.c, p.a.n, p.b.n)
    return p.n

def lit(vals):
    return Seq([Lit(vals)])

def tab(n, f, name='k'):
    k = fresh(name, 'I', 0, None)
    return Seq([Tab(n, k, f(k))])

def cat(*ss):
    return Seq([p for s in ss for p in s.parts])

def tvals(v, memo=None):
    """all terms in a value"""
    if isinstance(v, Term):
        yield v
    elif isinstance(v, Rec):
        for x in v.f.values():
            yield from tvals(x)
    elif isinstance(v, Seq):
        for p in v.parts:
            if isinstance(p, Lit):
                for x in p.vals:
                    yield from tvals(x)
            elif isinstance(p, (Tab, Flat)):
                yield p.n
                yield from tvals(p.body)
            elif isinstance(p, Alt):
                yield p.c
                yield from tvals(p.a)
                yield from tvals(p.b)
            else:
                yield p.n
    elif isinstance(v, Opt):
        yield v.has
        yield from tvals(v.val)
    elif isinstance(v, MapV):
        if v.base[0] == 'sym':
            yield from v.base[2]
        for u in v.ups:
            for x in u[1:]:
                if isinstance(x, Term):
                    yield x
                elif x is not None:
                    yield from tvals(x)
    elif isinstance(v, VIte):
        yield v.c
        yield from tvals(v.a)
        yield from tvals(v.b)
    elif isinstance(v, (Ptr, BackIt, BytesPtr)):
        yield from lvterms(v.lv)
    elif isinstance(v, It):
        yield from lvterms(v.lv)
        yield v.pos
    elif isinstance(v, MIt):
        yield from lvterms(v.lv)
        yield v.has
        yield from tvals(v.key)
    elif isinstance(v, tuple):
        yield from lvterms(v)

def lvterms(lv):
    if lv is None:
        return
    for x in lv[1:]:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            yield from lvterms(x)
        elif isinstance(x, V):
            yield from tvals(x)

def vsubst(v, m, memo=None):
    if memo is None:
        memo = {}
    if isinstance(v, Term):
        return subst(v, m, memo)
    if v is None or isinstance(v, (str, int, Str, Fn, Opaque)):
        return v
    if isinstance(v, Rec):
        return Rec(v.cls, {k: vsubst(x, m, memo) for k, x in v.f.items()})
    if isinstance(v, Seq):
        return Seq([psubst(p, m, memo) for p in v.parts])
    if isinstance(v, Opt):
        return Opt(vsubst(v.has, m, memo), vsubst(v.val, m, memo))
    if isinstance(v, MapV):
        return v.map(lambda x: vsubst(x, m, memo))
    if isinstance(v, VIte):
        return vite(vsubst(v.c, m, memo), vsubst(v.a, m, memo), vsubst(v.b, m, memo))
    if isinstance(v, Ptr):
        return Ptr(lvsubst(v.lv, m, memo))
    if isinstance(v, BytesPtr):
        return BytesPtr(lvsubst(v.lv, m, memo), v.t)
    if isinstance(v, BackIt):
        return BackIt(lvsubst(v.lv, m, memo), v.kind)
    if isinstance(v, It):
        return It(v.kind, lvsubst(v.lv, m, memo), vsubst(v.pos, m, memo), vsubst(v.snap, m, memo))
    if isinstance(v, MIt):
        return MIt(lvsubst(v.lv, m, memo), vsubst(v.key, m, memo), vsubst(v.has, m, memo))
    if isinstance(v, Lam):
        return v
    if isinstance(v, tuple):
        return lvsubst(v, m, memo)
    raise Limit('substitute in %r' % (v,))

def lvsubst(lv, m, memo=None):
    if lv is None:
        return None
    if memo is None:
        memo = {}
    return (lv[0],) + tuple(vsubst(x, m, memo) if isinstance(x, (Term, V, tuple)) else x for x in lv[1:])

def psubst(p, m, memo):
    if isinstance(p, Lit):
        return Lit([vsubst(x, m, memo) for x in p.vals])
    if isinstance(p, (Tab, Flat)):
        if p.k in m:
            m = {a: b for a, b in m.items() if a is not p.k}
            memo = {}
        # avoid capture: rename the bound variable if it occurs in a substituted term
        if any(p.k in atoms(b) for b in m.values()):
            k2 = fresh('k', 'I', 0, None)
            p = type(p)(p.n, k2, vsubst(p.body, {p.k: k2}))
        return type(p)(vsubst(p.n, m, memo), p.k, vsubst(p.body, m, memo))
    if isinstance(p, Alt):
        return Alt(vsubst(p.c, m, memo), vsubst(p.a, m, memo), vsubst(p.b, m, memo))
    return Hole(p.id, vsubst(p.n, m, memo))

def vkey(v, d=0):
    """structural key, up to bound variables"""
    if isinstance(v, Term):
        return v.id
    if isinstance(v, Rec):
        return ('R', v.cls) + tuple((k, vkey(x, d)) for k, x in sorted(v.f.items()))
    if isinstance(v, Seq):
        if d == 0 and v._key is not None:
            return v._key
        r = ('S',) + tuple(pkey(p, d) for p in v.parts)
        if d == 0:
            v._key = r
        return r
    if isinstance(v, Opt):
        return ('O', v.has.id, vkey(v.val, d))
    if isinstance(v, MapV):
        return ('M', v.base[0], v.base[1], tuple(vkey(x, d) for x in v.base[2]),
                tuple((u[0],) + tuple(vkey(x, d) for x in u[1:]) for u in v.ups))
    if v is None or isinstance(v, (str, int)):
        return v
    if isinstance(v, Str):
        return ('s', v.b)
    if isinstance(v, Ptr):
        return ('P', lvkey(v.lv, d))
    if isinstance(v, BytesPtr):
        return ('B', lvkey(v.lv, d), repr(v.t))
    if isinstance(v, It):
        return ('I', v.kind, lvkey(v.lv, d), v.pos.id)
    if isinstance(v, MIt):
        return ('MI', lvkey(v.lv, d), vkey(v.key, d), v.has.id)
    if isinstance(v, BackIt):
        return ('BI', lvkey(v.lv, d))
    if isinstance(v, VIte):
        return ('V', v.c.id, vkey(v.a, d), vkey(v.b, d))
    if isinstance(v, Fn):
        return ('F', v.f)
    if isinstance(v, tuple):
        return lvkey(v, d)
    return ('X', id(v))

def lvkey(lv, d=0):
    if lv is None:
        return None
    return tuple(vkey(x, d) if isinstance(x, (Term, V, tuple)) else x for x in lv)

def pkey(p, d):
    if isinstance(p, Lit):
        return ('L',) + tuple(vkey(x, d) for x in p.vals)
    if isinstance(p, (Tab, Flat)):
        c = var('%%k%d' % d, 'I', 0, None)
        return (type(p).__name__, p.n.id, vkey(vsubst(p.body, {p.k: c}), d + 1))
    if isinstance(p, Alt):
        return ('A', p.c.id, vkey(p.a, d), vkey(p.b, d))
    return ('H', p.id, p.n.id)

def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, Term) and isinstance(b, Term):
        if a.sort != b.sort:
            raise Limit('merge of sorts %s %s' % (a.sort, b.sort))
        return ite(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls:
        return Rec(a.cls, {k: vite(c, a.f[k], b.f[k]) if k in b.f else a.f[k] for k in a.f} |
                   {k: b.f[k] for k in b.f if k not in a.f})
    if isinstance(a, Opaque):
        return b
    if isinstance(b, Opaque):
        return a
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_ite(c, a, b)
    if isinstance(a, Opt) and isinstance(b, Opt):
        return Opt(ite(c, a.has, b.has), vite(c, a.val, b.val))
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.base[:2] != b.base[:2] and 'empty' not in (a.base[0], b.base[0]):
            return VIte(c, a, b)
        return map_ite(c, a, b)
    if isinstance(a, (MapV, VIte)) and isinstance(b, (MapV, VIte)) and 'MapV' in (type(a).__name__, type(b).__name__):
        return VIte(c, a, b)
    if vkey(a) == vkey(b):
        return a
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind and lvkey(a.lv) == lvkey(b.lv):
        return It(a.kind, a.lv, ite(c, a.pos, b.pos), a.snap)
    if isinstance(a, Ptr) and isinstance(b, Term) and b.op == 'int' or isinstance(b, Ptr) and isinstance(a, Term) or \
       isinstance(a, (Ptr, It, MIt, VIte, Str, BytesPtr, Fn)) and isinstance(b, (Ptr, It, MIt, VIte, Str, BytesPtr, Term, Fn)):
        return VIte(c, a, b)
    if isinstance(a, Str) and isinstance(b, Seq):
        return vite(c, bytes_lit(a.b), b)
    if isinstance(b, Str) and isinstance(a, Seq):
        return vite(c, a, bytes_lit(b.b))
    raise Limit('merge of %r and %r' % (type(a).__name__, type(b).__name__))

def bytes_lit(b):
    return lit([I(x if x < 128 else x - 256) for x in b])

def seq_ite(c, a, b):
    if vkey(a) == vkey(b):
        return a
    pa, pb = list(a.parts), list(b.parts)
    pre, post = [], []
    while pa and pb:
        x, y = pa[0], pb[0]
        if pkey(x, 0) == pkey(y, 0):
            pre.append(x)
            pa.pop(0)
            pb.pop(0)
        elif isinstance(x, Lit) and isinstance(y, Lit):
            n = min(len(x.vals), len(y.vals))
            # same-position literals merge element by element only if both sides are the whole rest or share the prefix
            m = 0
            while m < n and vkey(x.vals[m]) == vkey(y.vals[m]):
                m += 1
            if m == 0:
                if len(x.vals) == len(y.vals) and len(pa) == len(pb) == 1:
                    try:
                        pre.append(Lit([vite(c, u, w) for u, w in zip(x.vals, y.vals)]))
                        pa.pop(0)
                        pb.pop(0)
                        continue
                    except Limit:
                        pass
                break
            pre.append(Lit(x.vals[:m]))
            pa[0], pb[0] = Lit(x.vals[m:]), Lit(y.vals[m:])
            if not pa[0].vals:
                pa.pop(0)
            if not pb[0].vals:
                pb.pop(0)
        elif isinstance(x, Tab) and isinstance(y, Tab) and x.n is y.n:
            k = fresh('k', 'I', 0, None)
            pre.append(Tab(x.n, k, vite(c, vsubst(x.body, {x.k: k}), vsubst(y.body, {y.k: k}))))
            pa.pop(0)
            pb.pop(0)
        else:
            break
    while pa and pb and pkey(pa[-1], 0) == pkey(pb[-1], 0):
        post.append(pa.pop())
        pb.pop()
    post.reverse()
    mid = [Alt(c, Seq(pa), Seq(pb))] if pa or pb else []
    return Seq(pre + mid + post)

def seq_get(s, i):
    """element at index i (assumed in range)"""
    off = I(0)
    cases = []   # (guard upper bound, value)
    for pi, p in enumerate(s.parts):
        n = part_len(p)
        j = sub(i, off)
        end = add(off, n)
        if lt(i, off) is TRUE:
            break
        inb = lt(i, end)
        if inb is FALSE:
            off = end
            continue
        last = pi == len(s.parts) - 1
        cases.append((TRUE if last and inb is not FALSE else inb, lambda p=p, j=j, inb=inb: part_get(p, j)))
        if inb is TRUE:
            break
        off = end
    if not cases:
        raise Limit('index outside the sequence')
    v = cases[-1][1]()
    for g, f in reversed(cases[:-1]):
        v = vite(g, f(), v)
    return v

def part_get(p, j):
    if isinstance(p, Lit):
        if j.op == 'int':
            if 0 <= j.a < len(p.vals):
                return p.vals[j.a]
            raise Limit('literal index %s outside %d' % (j, len(p.vals)))
        v = p.vals[-1]
        for i in range(len(p.vals) - 2, -1, -1):
            v = vite(eq(j, I(i)), p.vals[i], v)
        return v
    if isinstance(p, Tab):
        return vsubst(p.body, {p.k: j})
    if isinstance(p, Alt):
        if p.a.n is I(0):
            return seq_get(p.b, j)
        if p.b.n is I(0):
            return seq_get(p.a, j)
        return vite(p.c, seq_get(p.a, j), seq_get(p.b, j))
    if isinstance(p, Flat):
        L = p.body.n
        if p.k not in atoms(L) and not any(x.op == 'ite' for x in [L]):
            k, r = split_index(j, L)
            if k is not None:
                return seq_get(vsubst(p.body, {p.k: k}), r)
        raise Limit('element of a concatenation')
    raise Limit('element of an unknown sequence')

def split_index(j, L):
    """j = k*L + r with 0 <= r < L"""
    if L.op == 'int' and L.a > 0:
        return fdiv_(j, L.a), fmod_(j, L.a)
    # syntactic: monomials divisible by the (single-variable) L or expand
    lead = [m for m, c in poly(L).items() if m != ()]
    if not lead:
        return None, None
    q = I(0)
    rest = j
    for m in lead:
        c = poly(L)[m]
        for m2, c2 in list(poly(rest).items()):
            l = list(m2)
            ok = all(x in l for x in m) and c2 % c == 0
            if ok:
                for x in m:
                    l.remove(x)
                qq = from_poly({tuple(l): c2 // c})
                cand = sub(rest, mul(qq, L))
                if len(poly(cand)) < len(poly(rest)) + 1 and qq.rng[0] >= 0:
                    q, rest = add(q, qq), cand
    if lt(rest, L) is TRUE and le(I(0), rest) is TRUE:
        return q, rest
    return (q, rest) if q is not I(0) or True else (None, None)

def seq_set(s, i, v):
    out, off, done = [], I(0), False
    for p in s.parts:
        n = part_len(p)
        j = sub(i, off)
        hit = and_(le(I(0), j), lt(j, n))
        off = add(off, n)
        if hit is FALSE or done:
            out.append(p)
            continue
        if isinstance(p, Lit):
            out.append(Lit([vite(eq(j, I(x)), v, old) for x, old in enumerate(p.vals)]))
        elif isinstance(p, Tab):
            k = fresh('k', 'I', 0, None)
            out.append(Tab(p.n, k, vite(eq(k, j), v, vsubst(p.body, {p.k: k}))))
        elif isinstance(p, Alt):
            out.append(Alt(p.c, seq_set(p.a, j, v), seq_set(p.b, j, v)))
        else:
            raise Limit('write into a concatenation')
        if hit is TRUE:
            done = True
    return Seq(out)

def seq_slice(s, a, n):
    """n elements from position a"""
    if a is I(0) and n is s.n:
        return s
    if n is I(0):
        return Seq()
    out = []
    off = I(0)
    end = add(a, n)
    for p in s.parts:
        pn = part_len(p)
        pend = add(off, pn)
        if le(pend, a) is TRUE:
            off = pend
            continue
        if le(end, off) is TRUE:
            break
        lo = sub(a, off)
        lo = I(0) if le(lo, I(0)) is TRUE else (lo if le(I(0), lo) is TRUE else None)
        if le(pend, end) is TRUE:
            hi = pn
        elif le(end, pend) is TRUE:
            hi = sub(end, off)
        else:
            hi = None
        if lo is None or hi is None:
            return tab(n, lambda k: seq_get(s, add(a, k)))
        if lo is I(0) and hi is pn:
            out.append(p)
        elif isinstance(p, Lit) and lo.op == 'int' and hi.op == 'int':
            out.append(Lit(p.vals[lo.a:hi.a]))
        elif isinstance(p, Tab):
            out.append(Tab(sub(hi, lo), p.k, vsubst(p.body, {p.k: add(p.k, lo)})))
        else:
            k = fresh('k', 'I', 0, None)
            out.append(Tab(sub(hi, lo), k, part_get(p, add(k, lo))))
        off = pend
    return Seq(out)

def seq_resize(s, n, val):
    if s.n is I(0):
        return Seq([Tab(n, fresh('k', 'I', 0, None), val)])
    if le(s.n, n) is TRUE:
        return cat(s, Seq([Tab(sub(n, s.n), fresh('k', 'I', 0, None), val)]))
    if le(n, s.n) is TRUE:
        return seq_slice(s, I(0), n)
    if len(s.parts) == 1 and isinstance(s.parts[0], Tab):
        p = s.parts[0]
        k = fresh('k', 'I', 0, None)
        return Seq([Tab(n, k, vite(lt(k, p.n), vsubst(p.body, {p.k: k}), val))])
    c = le(s.n, n)
    return Seq([Alt(c, cat(s, Seq([Tab(sub(n, s.n), fresh('k', 'I', 0, None), val)])),
                    tab(n, lambda k: seq_get(s, k)))])

# ------------------------------------------------------------------ maps and sets
class MapV(V):
    """base ('empty',None,()) or ('sym', name, args); ups: ('set', guard, key, value) / ('del', guard, key) /
    ('each', guard(k), key(k), value(k), k, n): for every k < n in order;
    ('ins', ...) / ('eachins', ...): only where the key is absent"""
    __slots__ = ('base', 'ups', 'kt', 'vt')
    def __init__(self, base, ups, kt, vt):
        self.base, self.ups, self.kt, self.vt = base, ups, kt, vt
    def map(self, f):
        b = self.base
        if b[0] == 'sym':
            b = ('sym', b[1], tuple(f(x) for x in b[2]))
        return MapV(b, tuple((u[0],) + tuple(f(x) for x in u[1:]) for u in self.ups), self.kt, self.vt)
    def up(self, *u):
        return MapV(self.base, self.ups + (u,), self.kt, self.vt)
    def __repr__(self):
        return 'Map(%s, %s)' % (self.base[:2], list(self.ups))

def flat_key(k):
    if isinstance(k, Term):
        return [k]
    if isinstance(k, Rec):
        return [x for n in sorted(k.f) for x in flat_key(k.f[n])]
    raise Limit('map key')

def key_eq(a, b):
    return and_(*[eq(x, y) for x, y in zip(flat_key(a), flat_key(b))])

def map_ite(c, a, b):
    if a.base[:2] != b.base[:2]:
        if b.base[0] == 'empty':
            return map_ite(not_(c), b, a)
        if a.base[0] != 'empty':
            raise Limit('merge of different maps')
        g = lambda u, c: (u[0], and_(c, u[1])) + u[2:]
        return MapV(b.base, (('clear', c),) + tuple(g(u, c) for u in a.ups) + tuple(g(u, not_(c)) for u in b.ups), b.kt, b.vt)
    if [vkey(x) for x in a.base[2]] != [vkey(x) for x in b.base[2]]:
        g = lambda u, c: (u[0], and_(c, u[1])) + u[2:]
        base = (b.base[0], b.base[1], tuple(vite(c, x, y) for x, y in zip(a.base[2], b.base[2])))
        return MapV(base, tuple(g(u, c) for u in a.ups) + tuple(g(u, not_(c)) for u in b.ups), b.kt, b.vt)
    i = 0
    while i < len(a.ups) and i < len(b.ups) and (a.ups[i] is b.ups[i] or
          [vkey(x) for x in a.ups[i][1:]] == [vkey(x) for x in b.ups[i][1:]] and a.ups[i][0] == b.ups[i][0]):
        i += 1
    def g(u, c):
        return (u[0], and_(c, u[1])) + u[2:]
    nc = not_(c)
    ups = a.ups[:i]
    ra, rb = a.ups[i:], b.ups[i:]
    if len(ra) == len(rb) and all(x[0] == y[0] == 'set' and vkey(x[2]) == vkey(y[2]) and x[1] is y[1] for x, y in zip(ra, rb)):
        return MapV(a.base, ups + tuple(('set', x[1], x[2], vite(c, x[3], y[3])) for x, y in zip(ra, rb)), a.kt, a.vt)
    return MapV(a.base, ups + tuple(g(u, c) for u in ra) + tuple(g(u, nc) for u in rb), a.kt, a.vt)

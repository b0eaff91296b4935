"""Loop summaries.  For a loop the verifier generates an invariant: a closed form, as a function of the iteration number
k, for every location the body modifies.  One generic iteration is then executed from the state the closed forms
describe; the invariant is accepted only when that iteration re-establishes it (the value after the iteration equals the
closed form at k+1), nothing else is modified and the entry state is the closed form at 0.  Early exits (return, break,
throw) are taken at the first iteration whose exit condition holds."""
from .term import *
from .values import *
from . import smt

class Retry(Exception):
    pass

def summarise(ex, st, cond, step, breaks, n=None):
    if len(ex.loopvars) > 2:
        raise Limit('loops nested more than three deep')
    from .exec import LOOPMAX
    cuts = []
    snap = Snap(ex)
    work = st.copy()
    i = 0
    while i < 3:
        hi = ((1 << 31) - 2, (1 << 32) - 2, LOOPMAX)[i]
        fr = ex.frames[-1]
        marks = (len(ex.throws), len(fr.rets), len(breaks))
        try:
            Summary(ex, work, cond, step, breaks, hi, i).run()
        except Retry:
            snap.restore()
            i += 1
            continue
        except Cut as e:
            # the loop writes in the middle of a stream: run it on the part before the writing position, then put the
            # rest back (the body may not look at the end of a cut stream)
            snap.restore()
            s = getat(ex, work, e.loc, e.path)
            cuts.append((e.loc, e.path, s))
            putat(ex, work, e.loc, e.path, s.set('data', seq_slice(s.f['data'], I(0), s.f['p'])).set('cut', TRUE))
            continue
        if cuts and marks != (len(ex.throws), len(fr.rets), len(breaks)):
            raise Limit('loop summary: stream written before its end and left early')
        for loc, path, s0 in cuts:
            s = getat(ex, work, loc, path)
            n, L, d = s0.f['data'].n, s.f['data'].n, s0.f['data']
            if ex.decide(work, le(L, n)):
                nd = cat(s.f['data'], seq_slice(d, L, sub(n, L)))
            elif ex.decide(work, le(n, L)):
                nd = s.f['data']
            else:
                nd = cat(s.f['data'], Seq([Alt(lt(L, n), seq_slice(d, L, clamp0(sub(n, L))), Seq())]))
            s = s.set('data', nd)
            del s.f['cut']
            putat(ex, work, loc, path, s)
        st.become(work)
        return
    raise Limit('loop summary: no stable closed form')

class Cut(Exception):
    def __init__(self, loc, path):
        self.loc, self.path = loc, path

def getat(ex, s, loc, path):
    return getp(s.cells[loc[1]] if loc[0] == 'c' else ex.heap_read(s, loc[1], loc[2]), path)
def putat(ex, s, loc, path, x):
    if loc[0] == 'c':
        s.cells[loc[1]] = setp(s.cells[loc[1]], path, x)
    else:
        s.heap[loc[1]] = s.heap.get(loc[1], ()) + (('pt', TRUE, loc[2], setp(ex.heap_read(s, loc[1], loc[2]), path, x)),)

class Snap:
    """facts and counters, to undo a trial run"""
    def __init__(self, ex):
        self.ex = ex
        self.f, self.u = list(ex.facts), list(ex.univs)
        self.seen = set(ex.fact_seen)
        self.en = set(ex.__dict__.get('enum_facts', ()))
        self.cnt = (ex.ncell, ex.nref, ex.nfresh, ex.nloop)
    def restore(self):
        ex = self.ex
        ex.facts[:], ex.univs[:] = self.f, self.u
        ex.fact_seen = set(self.seen)
        ex.enum_facts = set(self.en)
        ex.ncell, ex.nref, ex.nfresh, ex.nloop = self.cnt

# ------------------------------------------------------------------------------------------------ paths
def getp(v, path):
    for p in path:
        if isinstance(v, Rec):
            v = v.f[p]
        elif isinstance(v, Opt):
            v = v.has if p == '%has' else v.val
        elif isinstance(v, It):
            v = v.pos
        elif isinstance(v, Ptr):
            v = v.lv[2]
        elif isinstance(v, Seq):
            v = v.parts[0].vals[p]
        else:
            raise Limit('loop summary: path into %s' % type(v).__name__)
    return v

def setp(v, path, x):
    if not path:
        return x
    p, r = path[0], path[1:]
    if isinstance(v, Rec):
        return v.set(p, setp(v.f[p], r, x))
    if isinstance(v, Opt):
        return Opt(setp(v.has, r, x), v.val) if p == '%has' else Opt(v.has, setp(v.val, r, x))
    if isinstance(v, It):
        return It(v.kind, v.lv, x, v.snap)
    if isinstance(v, Ptr):
        return Ptr((v.lv[0], v.lv[1], x))
    if isinstance(v, Seq):
        vals = list(v.parts[0].vals)
        vals[p] = setp(vals[p], r, x)
        return lit(vals)
    raise Limit('loop summary: path into %s' % type(v).__name__)

def onelit(s):
    return len(s.parts) == 1 and isinstance(s.parts[0], Lit)

def diff(a, b, path=()):
    """modified leaves: (path, kind)"""
    if a is b:
        return
    if isinstance(a, Term) and isinstance(b, Term):
        yield path, 'S'
        return
    if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, Lam):
        return
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.cls == '%stream' and vkey(a.f['data']) != vkey(b.f['data']):
            yield path, 'W'
            for k in a.f:
                if k not in ('data', 'p'):
                    yield from diff(a.f[k], b.f[k], path + (k,))
            return
        if set(a.f) != set(b.f):
            raise Limit('loop summary: fields of %s change' % a.cls)
        for k in a.f:
            yield from diff(a.f[k], b.f[k], path + (k,))
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        if vkey(a) == vkey(b):
            return
        if onelit(a) and onelit(b) and len(a.parts[0].vals) == len(b.parts[0].vals):
            for i, (x, y) in enumerate(zip(a.parts[0].vals, b.parts[0].vals)):
                yield from diff(x, y, path + (i,))
            return
        yield path, 'A' if a.n is b.n and not onelit(a) else 'Q'
        return
    if isinstance(a, Opt) and isinstance(b, Opt):
        yield from diff(a.has, b.has, path + ('%has',))
        yield from diff(a.val, b.val, path + ('%val',))
        return
    if isinstance(a, MapV) and isinstance(b, MapV):
        if vkey(a) != vkey(b):
            yield path, 'M'
        return
    if vkey(a) == vkey(b):
        return
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind and lvkey(a.lv) == lvkey(b.lv):
        yield path + ('%pos',), 'S'
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv[0] == b.lv[0] == 'idx' and lvkey(a.lv[1]) == lvkey(b.lv[1]):
        yield path + ('%pidx',), 'S'
        return
    raise Limit('loop summary: %s becomes %s' % (type(a).__name__, type(b).__name__))

def usub(u, m):
    return (u[0],) + tuple(vsubst(x, m) if isinstance(x, (Term, V, tuple)) else x for x in u[1:])

def ukey(u):
    return (u[0],) + tuple(vkey(x) if isinstance(x, (Term, V, tuple)) else x for x in u[1:])

def common(a, b):
    m = 0
    while m < len(a) and m < len(b) and a[m] is b[m]:
        m += 1
    return m

def mentions(v, vs):
    for t in tvals(v):
        if vs & atoms(t):
            return True
    return False

def ite_conds(v):
    out, seen = [], set()
    st = list(tvals(v))
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'ite' and t.a[0] not in out:
            out.append(t.a[0])
        st.extend(kids(t))
    return out

# ------------------------------------------------------------------------------------------------ recurrences
class NoRule(Exception):
    pass

def delta(t, p, wr):
    """d with t == p + d, d free of p (wraps stripped, recorded in wr)"""
    if t is p:
        return I(0)
    if p not in atoms(t):
        return None
    if t.op == 'wrap':
        wr.add((t.a[1], t.a[2]))
        return delta(t.a[0], p, wr)
    if t.op == 'ite':
        if p in atoms(t.a[0]):
            return None
        a, b = delta(t.a[1], p, wr), delta(t.a[2], p, wr)
        return None if a is None or b is None else ite(t.a[0], a, b)
    if t.op == 'poly':
        own = [(m, c) for m, c in t.a if any(p in atoms(x) for x in m)]
        if len(own) != 1 or own[0][1] != 1 or len(own[0][0]) != 1:
            return None
        rest = from_poly({m: c for m, c in t.a if m != own[0][0]})
        d = delta(own[0][0][0], p, wr)
        return None if d is None else add(d, rest)
    return None

def lam(t, k):
    """(bound variable j, t[k := j])"""
    j = fresh('j', 'I', 0, None)
    return j, subst(t, {k: j})

def close(ex, T, p, init, k):
    """closed form of the recurrence x' = T(x, k), x(0) = init"""
    if T is p:
        return init
    if p not in atoms(T):
        if k not in atoms(T):
            return vite(eq(k, I(0)), init, T)
        return ite(eq(k, I(0)), init, subst(T, {k: sub(k, I(1))}))
    if T.sort == 'I':
        wr = set()
        d = delta(T, p, wr)
        if d is not None and len(wr) <= 1:
            if k not in atoms(d):
                c = add(init, mul(d, k))
            else:
                j, dj = lam(d, k)
                c = add(init, summ(k, j, dj))
            if wr:
                w, s = next(iter(wr))
                return wrap(c, w, s) if wrap(init, w, s) is init else ite(eq(k, I(0)), init, wrap(c, w, s))
            else:
                return c
        if T.op == 'fdiv' and T.a[0] is p and T.a[1] & (T.a[1] - 1) == 0:
            return shr(init, mul(I(T.a[1].bit_length() - 1), k))
        if T.op == 'shr' and T.a[0] is p and k not in atoms(T.a[1]) and p not in atoms(T.a[1]):
            return shr(init, mul(T.a[1], k))
        if T.op == 'ite':
            c, a, b = T.a
            for f, other, first in ((a, b, True), (b, a, False)):
                if other is p and p not in atoms(f):
                    for tag, t1, t2 in (('max', lt(p, f), le(p, f)), ('min', lt(f, p), le(f, p))):
                        if c is t1 or c is t2 or (not first and (c is not_(t1) or c is not_(t2))):
                            j, fj = lam(f, k)
                            return ghost(tag, [j], [fj, init], 'I', *bounds(tag, f, init), extra=[k])
    if T.sort == 'B':
        if T.op in ('or', 'and') and p in T.a:
            rest = [x for x in T.a if x is not p]
            if not any(p in atoms(x) for x in rest):
                r = or_(*rest) if T.op == 'or' else and_(*rest)
                j, rj = lam(r, k)
                if T.op == 'or':
                    return or_(init, ex.exists(k, j, rj)[0])
                return and_(init, ex.forall(k, j, rj))
    if T.op == 'ite' and p not in atoms(T.a[0]):
        c, a, b = T.a
        if b is p and p not in atoms(a):
            return lastw(ex, c, a, init, k)
        if a is p and p not in atoms(b):
            return lastw(ex, not_(c), b, init, k)
    # general recurrence
    j = fresh('j', 'I', 0, None)
    acc = fresh('acc', T.sort, *(T.rng if T.sort == 'I' else (None, None)))
    body = subst(T, {k: j, p: acc})
    lo, hi = (None, None)
    if T.sort == 'I':
        lo, hi = min(T.rng[0], init.rng[0]), max(T.rng[1], init.rng[1])
        lo, hi = (None if lo == -INF else lo), (None if hi == INF else hi)
        acc2 = fresh('acc', 'I', lo, hi)
        body = subst(T, {k: j, p: acc2})
        acc = acc2
    return ghost('fold', [j, acc], [body, init], T.sort, lo, hi, extra=[k])

def bounds(tag, f, init):
    lo = min(f.rng[0], init.rng[0]) if tag == 'min' else init.rng[0]
    hi = max(f.rng[1], init.rng[1]) if tag == 'max' else init.rng[1]
    return (None if lo == -INF else lo), (None if hi == INF else hi)

def lastw(ex, c, v, init, k):
    j, cj = lam(c, k)
    if k not in atoms(v):
        return ite(ex.exists(k, j, cj)[0], v, init)
    e, w = ex.exists_last(k, j, cj)
    return ite(e, subst(v, {k: w}), init)

# ------------------------------------------------------------------------------------------------ the summary
def mapterms(v, f):
    if isinstance(v, Term):
        return f(v)
    if isinstance(v, Rec):
        return Rec(v.cls, {k: mapterms(x, f) for k, x in v.f.items()})
    if isinstance(v, Opt):
        return Opt(f(v.has), mapterms(v.val, f))
    if isinstance(v, Seq) and onelit(v):
        return lit([mapterms(x, f) for x in v.parts[0].vals])
    raise Limit('loop summary: elements written in place')

def qeq(t, q):
    """conditions q == e inside t: the terms e"""
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x in seen or q not in atoms(x):
            continue
        seen.add(x)
        if x.op == 'eq0':
            p = poly(x.a[0])
            c = p.get((q,))
            if c in (1, -1):
                r = from_poly({m: z for m, z in p.items() if m != (q,)})
                if q not in atoms(r):
                    out[x] = neg(r) if c == 1 else r
        st.extend(kids(x))
    return out

class Leaf:
    """one modified location"""
    def __init__(self, loc, path, kind, init, num, tag):
        self.loc, self.path, self.kind, self.init = loc, path, kind, init
        nm = 'lh!%s.%d' % (tag, num)
        self.L = None
        if kind == 'S':
            lo = hi = None
            self.p = var(nm + init.sort, init.sort, lo, hi)
            self.hole = self.p
        elif kind == 'Q':
            self.L = var(nm + 'L', 'I', 0, 1 << 60)
            self.p = self.L
            self.hole = Seq([Hole(nm, self.L)])
        elif kind == 'W':
            self.L = var(nm + 'W', 'I', 0, 1 << 60)
            self.p = self.L
            self.hole = init.set('data', Seq([Hole(nm, self.L)])).set('p', self.L)
        elif kind == 'A':
            self.p = var(nm + 'A', 'I', 0, 1 << 60)
            self.q = var(nm + 'q', 'I', 0, None)
            self.e0 = seq_get(init, self.q)          # an element of the entry value
            self.n = init.n
            self.slots = []                          # hole terms of the scalar parts of an element
            def mk(t):
                h = uf('%s.e%d' % (nm, len(self.slots)), (self.p, self.q), t.sort, *(
                    [None if abs(b) == INF else b for b in t.rng] if t.sort == 'I' else (None, None)))
                self.slots.append((h, t))
                return h
            self.he = mapterms(self.e0, mk)
            self.hole = Seq([Tab(self.n, self.q, self.he)])
        self.id = nm
        self.T = None          # step template
        self.closed = None     # value as a function of k
        self.ups = ()          # maps: each-updates

class Summary:
    def __init__(self, ex, st, cond, step, breaks, hi, att):
        self.ex, self.st, self.cond, self.step, self.breaks = ex, st, cond, step, breaks
        self.E = st.copy()
        self.pc0 = st.pc
        self.att = att
        ex.nloop += 1
        self.tag = '%s%d.%d' % (ex.tag, ex.nloop, att)
        self.hi = hi
        self.k = var('lk!' + self.tag, 'I', 0, hi)
        self.leaves = {}
        self.regions = {}
        self.scatter = {}      # heap key of a map -> [(ref, guard, map key, value)] inserted by one iteration
        self.holes = set()
        self.mark = Snap(ex)
        self.consts, self.noconst, self.joints = set(), set(), []

    # ---------------------------------------------------------------- one iteration
    def start(self, k):
        x = self.E.copy()
        for key, us in self.regions.items():
            if any(mentions(y, self.holes) for u in us for y in u):
                continue
            j = fresh('j', 'I', 0, None)
            m = {self.k: j}
            x.heap[key] = x.heap.get(key, ()) + tuple(
                ('rg', TRUE, j, k, subst(u[0], m), vsubst(u[1], m)) if len(u) == 2 else
                ('rg2', subst(u[2], m), u[3], subst(u[4], m), subst(u[0], m), vsubst(u[1], m), j, k) for u in us)
        for key, us in self.scatter.items():
            if any(mentions(y, self.holes) for u in us for y in u):
                continue
            j = fresh('j', 'I', 0, None)
            m = {self.k: j}
            x.heap[key] = x.heap.get(key, ()) + tuple(
                ('in', subst(g, m), j, k, subst(ref, m), vsubst(mk, m), vsubst(mv, m)) for ref, g, mk, mv in us)
        by = {}
        for lf in self.leaves.values():
            by.setdefault(lf.loc, []).append(lf)
        for loc, ls in by.items():
            v = self.getloc(self.E, loc)
            for lf in ls:
                v = setp(v, lf.path, self.value(lf, k))
            self.setloc(x, loc, v)
        return x

    def value(self, lf, k):
        if lf.kind == 'M':
            j = fresh('j', 'I', 0, None)
            m = lf.init
            for u in lf.ups:
                if mentions(u[2], self.holes) or (u[3] is not None and mentions(u[3], self.holes)) or mentions(u[1], self.holes):
                    continue
                mm = {self.k: j}
                m = m.up('eachins' if u[0] == 'ins' else 'each', subst(u[1], mm), vsubst(u[2], mm), vsubst(u[3], mm), j, k)
            return m
        if lf.closed is None:
            return lf.hole
        return lf.closed if k is self.k else vsubst(lf.closed, {self.k: k})

    def getloc(self, s, loc):
        return s.cells[loc[1]] if loc[0] == 'c' else self.ex.heap_read(s, loc[1], loc[2])

    def setloc(self, s, loc, v):
        if loc[0] == 'c':
            s.cells[loc[1]] = v
        else:
            s.heap[loc[1]] = s.heap.get(loc[1], ()) + (('pt', TRUE, loc[2], v),)

    def iterate(self, dry, extra=TRUE):
        ex, k = self.ex, self.k
        x = self.start(k)
        x.pc = and_(self.pc0, extra)
        s0 = x.copy()
        fr = ex.frames[-1]
        ex.loopvars.append(k)
        old_t, ex.throws = ex.throws, []
        old_r, fr.rets = fr.rets, []
        brk = []
        if dry:
            ex.dry += 1
        try:
            c = self.cond(x)
            for nm, v in s0.cells.items():
                if x.cells.get(nm) is not v:
                    raise Limit('loop summary: the condition modifies a local')
            for key in x.heap:
                a, b = s0.heap.get(key, ()), x.heap[key]
                if a is not b and a != b and not all(u[0] == 'pt' and k in atoms(u[2]) for u in b[common(a, b):]):
                    raise Limit('loop summary: the condition modifies an object')
            if x.pc is not s0.pc:
                pass
            x.pc = and_(x.pc, c)
            cpc = x.pc
            if x.pc is not FALSE:
                self.step(x, brk)
            ev = [('throw', e) for e in ex.throws] + [('ret', e) for e in fr.rets] + [('break', e) for e in brk]
        finally:
            ex.loopvars.pop()
            ex.throws, fr.rets = old_t, old_r
            if dry:
                ex.dry -= 1
        return s0, c, x, [e for e in ev if e[1].st.pc is not FALSE]

    def modified(self, s0, x):
        """-> leaves {(loc, path): kind}, regions {heap key: [(ref, value)]}"""
        ex, k = self.ex, self.k
        out, reg, sca = {}, {}, {}
        self.pending = False
        for nm, a in s0.cells.items():
            b = x.cells.get(nm)
            if b is None or a is b:
                continue
            for path, kind in diff(a, b):
                out[(('c', nm), path)] = kind
        for key, e in x.heap.items():
            s = s0.heap.get(key, ())
            if s is e:
                continue
            m = common(s, e)
            refs = []
            old = s[m:]
            for u in s[m:] + e[m:]:
                if u[0] == 'rg' and k in atoms(u[4]) and ex.region_index2(u[4], u[2], k, u[4]) is not None and u not in old:
                    j = var('lj!' + self.tag, 'I', 0, None)
                    z = {u[2]: j}
                    reg.setdefault(key, []).append((subst(u[4], z), vsubst(u[5], z), subst(u[1], z), j, u[3]))
                    continue
                if u[0] != 'pt':
                    raise Limit('loop summary: nested object families (%s)' % key)
                if u[2] not in refs:
                    refs.append(u[2])
            for r in refs:
                if r.op == 'ite':
                    raise Limit('loop summary: conditional object')
                if k in atoms(r) and ex.region_index(var('r!probe', 'I', 1, 1 << 40), k, r)[0] is None:
                    a, b = ex.heap_read(s0, key, r), ex.heap_read(x, key, r)
                    if not isinstance(a, MapV) or not isinstance(b, MapV):
                        raise Limit('loop summary: objects written in no known order (%s)' % key)
                    us = [(r,) + u[1:4] for u in self.mapups(a, b, x)]
                    if us:
                        sca.setdefault(key, []).extend(us)
                elif k in atoms(r):
                    reg.setdefault(key, []).append((r, ex.heap_read(x, key, r)))
                else:
                    if mentions(r, self.holes):
                        self.pending = True
                        continue
                    for path, kind in diff(ex.heap_read(s0, key, r), ex.heap_read(x, key, r)):
                        out[(('h', key, r), path)] = kind
        for key, us in reg.items():
            for i, u in enumerate(us):
                for w in us[i + 1:]:
                    kk = fresh('kk', 'I', 0, None)
                    if u[0] is w[0] and len(u) == len(w) == 5:
                        continue             # one family written twice: the updates keep their order
                    if eq(u[0], subst(w[0], {k: kk})) is not FALSE:
                        raise Limit('loop summary: two object families written in one iteration (%s)' % key)
        for key, us in sca.items():
            if len(us) > 1 and self.ex.T.ftype(key)[1] != 'std::set':
                raise Limit('loop summary: several insertions in one iteration')
        return out, reg, sca

    def simp(self, v, pc):
        m = {}
        for t in (pc.a if pc.op == 'and' else (pc,)):
            if t.op in ('true', 'false'):
                continue
            m[t] = TRUE
            m[not_(t)] = FALSE
        return vsubst(v, m) if m else v

    def decided(self, v, st):
        """resolve the conditions inside v that the path decides"""
        m = {}
        for c in ite_conds(v):
            if self.ex.decide(st, c):
                m[c] = TRUE
            elif self.ex.decide(st, not_(c)):
                m[c] = FALSE
        return vsubst(v, m) if m else v

    def open_leaf(self, loc, path, kind):
        init = getp(self.getloc(self.E, loc), path)
        if kind == 'W' and init.f['p'] is not init.f['data'].n:
            if not self.ex.decide(self.E, eq(init.f['p'], init.f['data'].n)):
                if self.ex.decide(self.E, le(init.f['p'], init.f['data'].n)) and self.ex.decide(self.E, not_(init.f['fail'])):
                    raise Cut(loc, path)
                raise Limit('loop summary: stream written before its end')
        lf = Leaf(loc, path, kind, init, len(self.leaves), self.tag)
        self.leaves[(loc, path)] = lf
        if lf.kind != 'M':
            self.holes.add(lf.p)

    def joint(self, ls, x):
        """recurrences that depend on one another: one fold of a tuple"""
        k = self.k
        own = {lf.p for lf in ls}
        while True:
            drop = []
            for lf in ls:
                v = self.decided(self.simp(getp(self.getloc(x, lf.loc), lf.path), x.pc), x)
                lf.T = v
                if mentions(v, self.holes - own):
                    drop.append(lf)
            if not drop:
                break
            ls = [lf for lf in ls if lf not in drop]
            own = {lf.p for lf in ls}
        if not ls:
            raise Limit('loop summary: mutually dependent recurrences')
        j = fresh('j', 'I', 0, None)
        accs = [fresh('acc', lf.init.sort, *((None if abs(b) == INF else b) for b in (
            (min(lf.T.rng[0], lf.init.rng[0]), max(lf.T.rng[1], lf.init.rng[1])) if lf.init.sort == 'I' else (INF, INF)))) for lf in ls]
        m = {k: j}
        m.update({lf.p: a for lf, a in zip(ls, accs)})
        steps = [subst(lf.T, m) for lf in ls]
        inits = [lf.init for lf in ls]
        for i, lf in enumerate(ls):
            lo, hi = (accs[i].a[1], accs[i].a[2]) if lf.init.sort == 'I' else (None, None)
            lf.closed = ghost('joint%d' % i, [j] + accs, steps + inits, lf.init.sort, lo, hi, extra=[k])
            self.holes.discard(lf.p)
            self.joints.append(lf)

    def suffix(self, new, lf):
        """pieces appended to the hole of lf"""
        ps = new.parts
        if not ps or not isinstance(ps[0], Hole) or ps[0].id != lf.id:
            raise Limit('loop summary: sequence is not only appended to')
        rest = Seq(ps[1:])
        for p in rest.parts:
            if has_hole(p):
                raise Limit('loop summary: sequence repeated')
        return rest

    def guess(self, lf, x):
        """guess that a scalar keeps its value or grows by what the first iteration adds (checked like every closed form)"""
        k = self.k
        if lf in self.noconst:
            return False
        if lf.init.sort == 'B':
            init = self.decided(lf.init, self.E)
            if init.op not in ('true', 'false'):
                init = TRUE if self.ex.decide(self.E, init) else FALSE if self.ex.decide(self.E, not_(init)) else init
            if init.op not in ('true', 'false'):
                init = lf.init
            lf.closed, lf.T = init, lf.p
        elif lf.init.sort == 'I':
            m = {q.p: q.init for q in self.leaves.values() if q.kind == 'S'}
            for q in self.leaves.values():
                if q.kind == 'S' and q.init.sort == 'B':
                    m[q.p] = TRUE if self.ex.decide(self.E, q.init) else FALSE if self.ex.decide(self.E, not_(q.init)) else q.init
            m[k] = I(0)
            y = self.E.copy()
            y.pc = subst(x.pc, m)
            v = getp(self.getloc(x, lf.loc), lf.path)
            if not isinstance(v, Term):
                return False
            d = sub(self.decided(self.simp(subst(v, m), y.pc), y), lf.init)
            if k in atoms(d) or mentions(d, self.holes) or d.op == 'ite':
                return False
            lf.closed, lf.T = add(lf.init, mul(k, d)), add(lf.p, d)
        else:
            return False
        self.consts.add(lf)
        self.holes.discard(lf.p)
        return True

    def try_close(self, lf, x):
        """end state x of an iteration from the hole of lf: find its closed form; False: not yet"""
        k = self.k
        v = self.simp(getp(self.getloc(x, lf.loc), lf.path), x.pc)
        others = self.open_holes - {lf.p}       # x was computed with all of these open
        if lf.kind == 'S':
            if mentions(v, others):
                v = subst(self.decided(v, x), self.unwritten(x))
                if mentions(v, others):
                    return False
            lf.T = v
            self.consts.discard(lf)
            c = close(self.ex, v, lf.p, lf.init, k)
            if c.op == 'uf' and c.a[0].startswith('fold'):
                v2 = self.decided(v, x)
                if v2 is not v:
                    lf.T = v2
                    c = close(self.ex, v2, lf.p, lf.init, k)
                if c.op == 'uf' and c.a[0].startswith('fold') and self.guess(lf, x):
                    return True
            lf.closed = c
        elif lf.kind == 'A':
            cl = self.array(lf, v, x, others)
            if cl is None:
                return False
            lf.closed = cl
        else:
            d = v.f['data'] if lf.kind == 'W' else v
            suf = self.suffix(d, lf)
            n = suf.n
            if mentions(suf, others):
                suf = self.decided(suf, x)
                n = suf.n
                if mentions(suf, others):
                    return False
            if lf.L in atoms(n):
                return False
            init = lf.init.f['data'] if lf.kind == 'W' else lf.init
            j = fresh('j', 'I', 0, None)
            length = add(init.n, summ(k, j, subst(n, {k: j})) if k in atoms(n) else mul(k, n))
            suf = vsubst(suf, {lf.L: length})
            lf.T = suf
            j = fresh('j', 'I', 0, None)
            data = cat(init, Seq([Flat(k, j, vsubst(suf, {k: j}))]))
            if lf.kind == 'W':
                if not self.ex.decide(x, eq(v.f['p'], add(lf.L, n))):
                    raise Limit('loop summary: stream position')
                lf.closed = lf.init.set('data', data).set('p', data.n)
            else:
                lf.closed = data
        self.holes.discard(lf.p)
        return True

    def unwritten(self, x):
        """elements about to be written by this iteration still have their first values (a guess, checked with the rest)"""
        m = {}
        for lf in self.leaves.values():
            if lf.kind != 'A' or lf.closed is not None:
                continue
            v = getp(self.getloc(x, lf.loc), lf.path)
            terms = []
            mapterms(self.simp(seq_get(v, lf.q), x.pc), lambda t: (terms.append(t), t)[1])
            pts = set()
            for (h, e0), t in zip(lf.slots, terms):
                if t is not h:
                    pts |= set(qeq(t, lf.q).values())
            if len(pts) == 1:
                at = next(iter(pts))
                if self.k in atoms(at) and not mentions(at, self.holes):
                    for h, e0 in lf.slots:
                        m[subst(h, {lf.q: at})] = subst(e0, {lf.q: at})
        return m

    def array(self, lf, v, x, others):
        """elements written in place at an index that advances with k"""
        ex, k, q = self.ex, self.k, lf.q
        if not self.equal(v.n, lf.n, x):
            raise Limit('loop summary: sequence is resized')
        x = x.copy()
        x.pc = and_(x.pc, le(I(0), q), lt(q, lf.n))
        ev = self.simp(seq_get(v, q), x.pc)
        if any(qeq(t, q) == {} and lf.p in atoms(t) and not any(t is h for h, _ in lf.slots) for t in tvals(ev)):
            ev = self.decided(ev, x)
        terms = []
        mapterms(ev, lambda t: (terms.append(t), t)[1])
        if len(terms) != len(lf.slots):
            raise Limit('loop summary: element shape')
        if mentions(ev, others):
            ev = self.decided(ev, x)
            if mentions(ev, others):
                return None
            terms = []
            mapterms(ev, lambda t: (terms.append(t), t)[1])
        lf.T = []
        outs = []
        over = not any(lf.p in atoms(t) for t in terms)     # rewritten whole each time
        for (h, e0), t in zip(lf.slots, terms):
            if over:
                outs.append(vite(eq(k, I(0)), e0, subst(t, {k: sub(k, I(1))})))
                lf.T.append((None, t))
                continue
            if t is h:
                outs.append(e0)
                lf.T.append(None)
                continue
            es = qeq(t, q)
            pts = set(es.values())
            if len(pts) != 1:
                raise Limit('loop summary: elements written at %d positions' % len(pts))
            at = next(iter(pts))
            if mentions(at, others):
                return None
            c = poly(at).get((k,))
            r = from_poly({m: z for m, z in poly(at).items() if m != (k,)})
            if c is None or c <= 0 or k in atoms(r):
                raise Limit('loop summary: written position does not advance')
            if mentions(r, self.holes):
                return None
            inside = subst(subst(t, {z: TRUE for z in es}), {q: at})
            outside = subst(t, {z: FALSE for z in es})
            if outside is not h:
                raise Limit('loop summary: elements changed elsewhere')
            inside = subst(inside, {subst(h2, {q: at}): subst(e2, {q: at}) for h2, e2 in lf.slots})
            if lf.p in atoms(inside):
                raise Limit('loop summary: element depends on other elements written by the loop')
            d = sub(q, r)
            j, dv = (d, TRUE) if c == 1 else (fdiv_(d, c), eq(fmod_(d, c), I(0)))
            cond = and_(le(I(0), j), lt(j, k), dv)
            outs.append(vite(cond, subst(inside, {k: j}), e0))
            lf.T.append((at, inside))
        it = iter(outs)
        return Seq([Tab(lf.n, q, mapterms(lf.e0, lambda t: next(it)))])

    def array_stable(self, lf, v, base, x):
        q = lf.q
        if not self.equal(v.n, lf.n, x):
            return False
        x = x.copy()
        x.pc = and_(x.pc, le(I(0), q), lt(q, lf.n))
        terms, bt = [], []
        mapterms(seq_get(v, q), lambda t: (terms.append(t), t)[1])
        mapterms(seq_get(base, q), lambda t: (bt.append(t), t)[1])
        for tm, t, b in zip(lf.T, terms, bt):
            want = b if tm is None else tm[1] if tm[0] is None else vite(eq(q, tm[0]), tm[1], b)
            if not self.equal(t, want, x):
                return False
        return True

    def stable(self, lf, x, s0):
        """does one iteration from the closed form at k give the closed form at k + 1?"""
        v = getp(self.getloc(x, lf.loc), lf.path)
        if lf.kind == 'S':
            want = subst(lf.T, {q.p: q.closed for q in self.leaves.values() if q.kind == 'S' and q.closed is not None})
            return self.equal(v, want, x)
        if lf.kind == 'A':
            return self.array_stable(lf, v, getp(self.getloc(s0, lf.loc), lf.path), x)
        if lf.kind in 'QW':
            base = getp(self.getloc(s0, lf.loc), lf.path)
            d = v.f['data'] if lf.kind == 'W' else v
            b = base.f['data'] if lf.kind == 'W' else base
            want = cat(b, lf.T)
            if lf.kind == 'W' and not self.equal(v.f['p'], add(b.n, lf.T.n), x):
                return False
            if vkey(self.simp(d, x.pc)) == vkey(self.simp(want, x.pc)):
                return True
            return vkey(self.decided(self.simp(d, x.pc), x)) == vkey(self.decided(self.simp(want, x.pc), x))
        base = getp(self.getloc(s0, lf.loc), lf.path)
        m = self.mapups(base, v, x)
        return [ukey(u) for u in m] == [ukey(u) for u in lf.ups]

    def mapups(self, base, v, x):
        i = 0
        while i < len(base.ups) and i < len(v.ups) and (base.ups[i] is v.ups[i] or ukey(base.ups[i]) == ukey(v.ups[i])):
            i += 1
        if i < len(base.ups):
            raise Limit('loop summary: map changed in place')
        out = []
        for u in v.ups[i:]:
            if u[0] not in ('set', 'ins'):
                raise Limit('loop summary: map %s in a loop' % u[0])
            u = (u[0], self.simp(u[1], x.pc), self.simp(u[2], x.pc), self.simp(u[3], x.pc) if u[3] is not None else None)
            if u[1] is not FALSE:
                # an insertion that a later one at the same key overwrites leaves no trace
                if u[0] == 'set':
                    out = [w for w in out if not (key_eq(w[2], u[2]) is TRUE and self.ex.decide(x, implies(w[1], u[1])))]
                out.append(u)
        if len(out) > 1 and base.vt != ['bool']:
            k2 = fresh('kk', 'I', 0, None)
            for a in range(len(out)):
                for b in range(a + 1, len(out)):
                    if key_eq(out[a][2], vsubst(out[b][2], {self.k: k2})) is not FALSE:
                        raise Limit('loop summary: several insertions in one iteration')
        return tuple(out)

    def equal(self, a, b, x):
        if a is b:
            return True
        a, b = self.simp(a, x.pc), self.simp(b, x.pc)
        if a is b:
            return True
        g = eq(a, b) if a.sort == 'I' else iff(a, b) if a.sort == 'B' else same(a, b)
        return self.ex.decide(x, g)

    # ---------------------------------------------------------------- driver
    def run(self):
        ex, k = self.ex, self.k
        for rnd in range(14):
            self.mark.restore()
            s0, c, x, ev = self.iterate(True)
            if x.pc is FALSE or ex.decide(x, FALSE):
                if not self.leaves and not self.regions and not self.scatter:
                    self.mark.restore()
                    return ex.branch(self.st, self.cond(self.st), lambda y: self.once(y), lambda y: None)
            mod, reg, sca = self.modified(s0, x)
            new = [key for key in mod if key not in self.leaves and not any(
                lf.loc == key[0] and key[1][:len(lf.path)] == lf.path for lf in self.leaves.values())]
            progress = False
            # locals first: an object reached through a changing local looks fixed in this round
            new = [key for key in new if key[0][0] == 'c'] or new
            for key in new:
                # a leaf that contains existing ones replaces them
                for q in [q for q in self.leaves if q[0] == key[0] and q[1][:len(key[1])] == key[1]]:
                    self.holes.discard(self.leaves[q].p if self.leaves[q].kind != 'M' else None)
                    del self.leaves[q]
                self.open_leaf(key[0], key[1], mod[key])
                progress = True
            moved = self.set_regions(reg, x)
            if [[tuple(vkey(y) for y in u) for u in us] for us in sca.values()] != [[tuple(vkey(y) for y in u) for u in us] for us in self.scatter.values()] \
                    or list(sca) != list(self.scatter):
                self.scatter, moved = sca, True
            if new:
                continue
            if moved:
                progress = True
            for lf in list(self.leaves.values()):
                if lf.kind == 'M':
                    ups = self.mapups(getp(self.getloc(s0, lf.loc), lf.path), getp(self.getloc(x, lf.loc), lf.path), x)
                    if [ukey(u) for u in ups] != [ukey(u) for u in lf.ups]:
                        lf.ups = ups
                        progress = True
            pend = [lf for lf in self.leaves.values() if lf.kind != 'M' and lf.closed is None]
            if pend:
                self.open_holes = set(self.holes)
                for lf in pend:
                    if self.try_close(lf, x):
                        progress = True
                if not progress:
                    flags = [lf for lf in pend if lf.kind == 'S' and lf.init.sort == 'B']
                    if any([self.guess(lf, x) for lf in flags]):
                        continue
                    if any([self.guess(lf, x) for lf in pend if lf.kind == 'S']):
                        continue
                    self.joint([lf for lf in pend if lf.kind == 'S'], x)
                continue
            bad = [lf for lf in self.leaves.values() if not self.stable(lf, x, s0)]
            if not bad and not progress and self.pending:
                raise Limit('loop summary: object reached through a recurrence')
            if not bad and not progress:
                if any(mentions(y, self.holes) for us in self.regions.values() for u in us for y in u) or \
                        any(mentions(y, self.holes) for us in self.scatter.values() for u in us for y in u):
                    raise Limit('loop summary: unresolved recurrence')
                return self.finish(s0, c, x, ev)
            for lf in bad:
                if lf in self.consts:
                    self.noconst.add(lf)
                    self.consts.discard(lf)
                    bad = [q for q in self.leaves.values()]
                    break
            for lf in bad:
                if lf.kind != 'M':
                    lf.closed = lf.T = None
                    self.holes.add(lf.p)
        raise Retry() if self.att < 2 else Limit('loop summary: no stable closed form')

    def once(self, y):
        self.step(y, self.breaks)

    def set_regions(self, reg, x):
        new = {key: [(u[0], self.simp(u[1], x.pc)) + (() if len(u) == 2 else (self.simp(u[2], x.pc), u[3], self.simp(u[4], x.pc)))
                     for u in us] for key, us in reg.items()}
        def rk(d):
            return {key: [tuple(vkey(y) for y in u) for u in us] for key, us in d.items()}
        if rk(new) == rk(self.regions):
            return False
        self.regions = new
        return True

    # ---------------------------------------------------------------- trip count and exits
    def trip(self, c, x0):
        """-> (N or None, conjuncts that may fail earlier)"""
        ex, k = self.ex, self.k
        N, early = None, []
        qs = list(c.a) if c.op == 'and' else [c]
        def minus(a):
            return a if N is None else ite(le(a, N), a, N)
        rest = []
        for q in qs:
            if q is TRUE:
                continue
            if k not in atoms(q):
                t = ite(q, I(1 << 62), I(0))
                early.append(q) if False else rest.append((q, t))
                continue
            neg_ = q.op == 'not'
            b = q.a[0] if neg_ else q
            done = False
            if b.op in ('le0', 'eq0'):
                p = poly(b.a[0])
                a = p.get((k,))
                r = from_poly({m: z for m, z in p.items() if m != (k,)})
                if a is not None and k not in atoms(r):
                    if b.op == 'le0' and not neg_ and a > 0:
                        t = add(fdiv_(neg(r), a), I(1))
                        N = minus(t)
                        done = True
                    elif b.op == 'le0' and neg_ and a < 0:
                        # a k + r > 0  <=>  |a| k < r  <=>  k <= (r - 1) div |a|
                        t = add(fdiv_(sub(r, I(1)), -a), I(1))
                        N = minus(t)
                        done = True
                    elif b.op == 'eq0' and neg_ and a in (1, -1):
                        t = neg(r) if a == 1 else r
                        t = t if t.rng[0] >= 0 else ite(le(I(0), t), t, I(1 << 48))
                        N = minus(t)
                        done = True
            if not done:
                rest.append((q, None))
        if N is not None:
            N = N if N.rng[0] >= 0 else ite(le(I(0), N), N, I(0))
            hyp = lt(k, N)
        else:
            hyp = TRUE
        y = self.E.copy()
        y.pc = and_(self.pc0, hyp)
        keep = []
        for q, t in rest:
            if t is not None and N is not None:
                if not ex.decide(self.E, q):
                    N = ite(q, N, I(0))
            elif not ex.decide(y, q):
                keep.append(q)
        return N, keep

    def finish(self, s0, c, x, ev):
        ex, k, st = self.ex, self.k, self.st
        from .exec import Ev, LOOPMAX, conj
        N, keep = self.trip(c, s0)
        if N is not None and not (N.rng[1] <= self.hi + 1 or ex.decide(self.E, le(N, I(self.hi + 1)))):
            if self.att < 2:
                raise Retry()
        base = conj(self.pc0) | conj(c)
        exits = []          # (kind, Ev, local condition)
        if keep:
            e = s0.copy()
            g = not_(and_(*keep))
            e.pc = and_(self.pc0, g)
            exits.append(('done', Ev(e), g))
        elif N is None:
            if not ev:
                ex.notes.add('a loop without exit is taken not to terminate')
        for kind, e in ev:
            g = and_(*[t for t in conj(e.st.pc) if t not in base])
            if keep:
                g = and_(g, *keep)
            exits.append((kind, e, g))
        G = or_(*[g for _, _, g in exits])
        bound = N if N is not None else I(LOOPMAX)
        # obligations of a generic iteration, reached only when no earlier iteration left the loop
        hyp = lt(k, bound) if N is not None else TRUE
        if keep:
            hyp = and_(hyp, *keep)
        if G is not FALSE:
            j, gj = lam(G, k)
            hyp = and_(hyp, not_(ex.exists(k, j, gj)[0]))
        if not ex.dry and not ex.spec_mode:
            cnt = (ex.ncell, ex.nref, ex.nfresh, ex.nloop)
            ex.ncell, ex.nref, ex.nfresh, ex.nloop = self.mark.cnt
            self.iterate(False, hyp)
            ex.ncell, ex.nref, ex.nfresh, ex.nloop = [max(a, b) for a, b in zip(cnt, (ex.ncell, ex.nref, ex.nfresh, ex.nloop))]
        self.lift()
        # exits
        if G is not FALSE:
            j, gj = lam(G, k)
            EX, w = ex.exists(bound, j, gj)
            if N is None:
                ex.notes.add('termination of a loop whose exit is data dependent is assumed')
        else:
            EX, w = FALSE, I(0)
        m = {k: w}
        outs = []
        prev = []
        for i, (kind, e, g) in enumerate(exits):
            gw = subst(g, m)
            last = i == len(exits) - 1
            loc = and_(*[not_(q) for q in prev]) if last and i > 0 else (TRUE if len(exits) == 1 else gw)
            prev.append(gw)
            s = e.st
            cells, heap = {}, {}
            keepc = kind == 'ret' and isinstance(e.val, tuple)
            for nm, v in s.cells.items():
                if nm in self.E.cells:
                    cells[nm] = v if v is self.E.cells[nm] else vsubst(v, m)
                elif keepc:
                    cells[nm] = vsubst(v, m)
            for key, us in s.heap.items():
                b = self.E.heap.get(key, ())
                if us is b:
                    heap[key] = us
                else:
                    q = common(us, b)
                    heap[key] = us[:q] + tuple(usub(u, m) for u in us[q:])
            from .exec import State
            y = State(cells, heap, and_(self.pc0, EX, loc) if N is not None or len(exits) > 1 or True else self.pc0)
            outs.append((kind, Ev(y, vsubst(e.val, m) if e.val is not None else None)))
        # normal exit
        if N is not None:
            f = self.start(N)
            f.pc = and_(self.pc0, not_(EX))
            # the condition is evaluated once more
            if not ex.dry and not ex.spec_mode:
                y = f.copy()
                old, ex.throws = ex.throws, []
                try:
                    self.cond(y)
                finally:
                    ex.throws = old
        else:
            f = self.E.copy()
            f.pc = FALSE
            if len(outs) == 1 and outs[0][0] == 'done':
                outs[0][1].st.pc = self.pc0          # termination assumed
                ex.fact(implies(self.pc0, EX))
        from .exec import merge_events
        norm = [Ev(f)]
        fr = ex.frames[-1]
        for kind, e in outs:
            if e.st.pc is FALSE:
                continue
            if kind == 'throw':
                ex.throws.append(e)
            elif kind == 'ret':
                fr.rets.append(e)
            elif kind == 'break':
                self.breaks.append(e)
            else:
                norm.append(e)
        st.become(merge_events(norm)[0])

    def lift(self):
        """facts about the generic iteration hold for every iteration"""
        ex, k = self.ex, self.k
        nf, nu = len(self.mark.f), len(self.mark.u)
        rng = and_(le(I(0), k), le(k, I(self.hi)))
        j = fresh('kl', 'I', 0, None)
        for t in list(ex.facts[nf:]):
            if k in atoms(t):
                ex.univ([j], subst(implies(rng, t), {k: j}) if rng is TRUE else implies(and_(le(I(0), j), le(j, I(self.hi))), subst(t, {k: j})), 'loop')
        for u in list(ex.univs[nu:]):
            if k in atoms(u.body):
                ex.univ(list(u.vs) + [j], implies(and_(le(I(0), j), le(j, I(self.hi))), subst(u.body, {k: j})), u.note)

def has_hole(p):
    if isinstance(p, Hole):
        return True
    if isinstance(p, (Tab, Flat)):
        return isinstance(p.body, Seq) and any(has_hole(q) for q in p.body.parts)
    if isinstance(p, Alt):
        return any(has_hole(q) for q in p.a.parts + p.b.parts)
    return False

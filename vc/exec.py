"""Symbolic executor over the extracted AST.  One merged state (no path forking); every operation with a possible
undefined behaviour yields an obligation; calls to functions under contract use the contract; loops are summarised by
generated invariants (closed forms) whose preservation is an obligation of its own."""
from .term import *
from .values import *
from . import smt
import time

LOOPMAX = 1 << 48
MAXLEN = (1 << 31) - 1
REFSP = 1 << 60
DYN = var('%dynof', 'I', 0, None)      # class of the object an update of the heap may change

class State:
    __slots__ = ('cells', 'heap', 'pc')
    def __init__(self, cells=None, heap=None, pc=TRUE):
        self.cells = cells if cells is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
    def copy(self):
        return State(dict(self.cells), dict(self.heap), self.pc)
    def become(self, o):
        self.cells, self.heap, self.pc = o.cells, o.heap, o.pc
    @property
    def dead(self):
        return self.pc is FALSE

def conj(t):
    return set(t.a) if t.op == 'and' else (set() if t is TRUE else {t})

def split_pc(a, b):
    """condition that tells pc a from pc b (mutually exclusive), with the common part removed"""
    A, B = conj(a), conj(b)
    com = A & B
    return and_(*[x for x in A if x not in com])

def ite_leaves(t, g=TRUE):
    if g is FALSE:
        return
    if t.op == 'ite':
        yield from ite_leaves(t.a[1], and_(g, t.a[0]))
        yield from ite_leaves(t.a[2], and_(g, not_(t.a[0])))
    else:
        yield g, t

def one_point(x, k):
    """t if a conjunct of x says k == t"""
    for q in (x.a if x.op == 'and' else (x,)):
        if q.op == 'eq0' and k in atoms(q):
            p = poly(q.a[0])
            c = p.get((k,))
            if c in (1, -1):
                r = from_poly({m: z for m, z in p.items() if m != (k,)})
                if k not in atoms(r):
                    return neg(r) if c == 1 else r
    return None

def heap_merge(c, a, b):
    if a is b:
        return a
    i = 0
    while i < len(a) and i < len(b) and a[i] is b[i]:
        i += 1
    nc = not_(c)
    pre, ra, rb = a[:i], a[i:], b[i:]
    out = []
    if len(ra) == len(rb) and all(x[0] == y[0] == 'pt' and x[2] is y[2] and x[1] is y[1] for x, y in zip(ra, rb)):
        return pre + tuple(('pt', x[1], x[2], vite(c, x[3], y[3])) for x, y in zip(ra, rb))
    for g, us in ((c, ra), (nc, rb)):
        for u in us:
            out.append((u[0], and_(g, u[1])) + u[2:])
    return pre + tuple(out)

def merge_states(a, b, c=None):
    """states with mutually exclusive path conditions"""
    if a.pc is FALSE:
        return b
    if b.pc is FALSE:
        return a
    if c is None:
        c = split_pc(a.pc, b.pc)
    cells = dict(a.cells)
    for k, v in b.cells.items():
        if k in cells:
            if cells[k] is not v:
                cells[k] = vite(c, cells[k], v)
        else:
            cells[k] = v
    heap = dict(a.heap)
    for k, v in b.heap.items():
        heap[k] = heap_merge(c, heap.get(k, ()), v)
    for k, v in a.heap.items():
        if k not in b.heap:
            heap[k] = heap_merge(c, v, ())
    return State(cells, heap, or_(a.pc, b.pc))

class Ev:
    """an event in a sink: the state when it happened and a value"""
    __slots__ = ('st', 'val')
    def __init__(self, st, val=None):
        self.st, self.val = st, val

def map_up(v, *u):
    if isinstance(v, VIte):
        return vite(v.c, map_up(v.a, *u), map_up(v.b, *u))
    return v.up(*u)

def merge_events(evs):
    """-> (state, value) of a list of mutually exclusive events"""
    st, val = evs[0].st, evs[0].val
    for e in evs[1:]:
        if e.st.pc is FALSE:
            continue
        if st.pc is FALSE:
            st, val = e.st, e.val
            continue
        c = split_pc(st.pc, e.st.pc)
        val = vite(c, val, e.val) if val is not None and e.val is not None and not isinstance(val, tuple) else \
            lv_ite(c, val, e.val) if isinstance(val, tuple) else val
        st = merge_states(st, e.st, c)
    return st, val

def lv_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if lvkey(a) == lvkey(b):
        return a
    return ('ite', c, a, b)

SEQID = {}

class Ob:
    __slots__ = ('name', 'kind', 'pc', 'goal', 'where', 'hyps', 'nf', 'nu')
    def __init__(self, name, kind, pc, goal, where, nf=None, nu=None):
        self.name, self.kind, self.pc, self.goal, self.where = name, kind, pc, goal, where
        self.nf, self.nu = nf, nu

class Frame:
    def __init__(self, fun, this):
        self.fun, self.this = fun, this
        self.env = {}
        self.rets = []
        self.brk = None
        self.cont = None

class Prover:
    def __init__(self):
        self.memo = {}

class Exec:
    def __init__(self, prog, contracts=None, tag='c'):
        from .types import Types
        self.T = Types(prog)
        self.prog = prog
        self.contracts = contracts or {}
        self.facts, self.univs = [], []
        self.fact_seen = set()
        self.obs = []
        self.throws = []          # current throw sink
        self.dry = 0
        self.loopvars = []
        self.frames = []
        self.ncell = 0
        self.nref = 0
        self.nfresh = 0
        self.nloop = 0
        self.enum_facts = set()
        self._univs = {}
        self.tag = tag
        self.spec_mode = 0
        self.fresh_log = []
        self.inline_only = set()
        self.used_contracts = set()
        self.inlined = set()
        self.depth = 0
        self.notes = set()
        self.where = ''
        self.assume_pre = True    # assume class invariants on reads of pre-state objects
        self.hooks = {}
        self.opq = []             # opaque calls so far: (function, this, heap before, state before)
        self.tail_of = self.tail_e = None
        self.hvmap, self.hvhit = {}, False
        self.lock = None          # loops without a closed form (lockstep.py)
        self.ctype = {}           # types of locals
        self.tails = []           # tail calls of the function under verification to itself
        self.globals_cells = {}
        self.static_const = {}

    # ------------------------------------------------------------ facts and obligations
    def fact(self, t):
        if t is TRUE or t in self.fact_seen:
            return
        self.fact_seen.add(t)
        self.facts.append(t)

    def univ(self, vs, body, note=''):
        if body is TRUE:
            return
        key = ('U', tuple(vs) if isinstance(vs, (list, tuple)) else vs, body)
        if key in self.fact_seen:
            return
        self.fact_seen.add(key)
        u = self._univs.get(key)
        if u is None:
            u = self._univs[key] = smt.Univ(vs, body, note)
        self.univs.append(u)

    def fresh(self, name, sort='I', lo=None, hi=None):
        self.nfresh += 1
        return uf('%s!%s%d' % (name, self.tag, self.nfresh), tuple(self.loopvars), sort, lo, hi)

    def bump(self):
        self.ncell += 1
        return self.ncell

    def seqid(self, s):
        """term that identifies the content of a sequence (equal contents: equal identity, see contract.py)"""
        key = vkey(s)
        r = SEQID.get(key)
        if r is None:
            bound = set()
            free, seen = [], set()
            def parts(q):
                for p in q.parts:
                    if isinstance(p, (Tab, Flat)):
                        bound.add(p.k)
                    if isinstance(p, Flat):
                        parts(p.body)
                    if isinstance(p, Alt):
                        parts(p.a); parts(p.b)
            parts(s)
            for t in tvals(s):
                for v in atoms(t):
                    if v.op == 'var' and v not in seen and v not in bound:
                        seen.add(v)
                        free.append(v)
            free.sort(key=lambda v: v.id)
            r = SEQID[key] = (uf('seqid#%d' % len(SEQID), tuple(free), 'I', 0, 1 << 60), s)
        return r[0]

    def ob(self, st, kind, goal, what=''):
        if self.dry or self.spec_mode or st.pc is FALSE or goal is TRUE:
            if not self.dry and not self.spec_mode and st.pc is not FALSE:
                self.nsyn = getattr(self, 'nsyn', 0) + 1
            return
        g = or_(not_(st.pc), goal)
        if g is TRUE:
            self.nsyn = getattr(self, 'nsyn', 0) + 1
            return
        self.obs.append(Ob('%s: %s' % (kind, what), kind, st.pc, goal, self.where, len(self.facts), len(self.univs)))

    def decide(self, st, goal, timeout=2.0):
        """is goal valid under the path condition and the facts? (used for simplification only)"""
        if goal is TRUE:
            return True
        if goal is FALSE and st.pc is not FALSE and not self.facts:
            return False
        if or_(not_(st.pc), goal) is TRUE:
            return True
        rel = relevant(self.facts, [st.pc, goal])
        key = (st.pc, goal, tuple(rel), tuple(map(id, self.univs)))
        m = self.__dict__.setdefault('_dmemo', {})
        if key not in m:
            r, _ = smt.check(rel + [st.pc], goal, self.univs, (), timeout, fp=False, quick=True)
            m[key] = r == 'proved'
        return m[key]

    # ------------------------------------------------------------ cells and lvalues
    def cell(self, st, v, name=''):
        self.ncell += 1
        c = '%s%d%s' % (self.tag, self.ncell, name)
        st.cells[c] = v
        return ('cell', c)

    def read(self, st, lv):
        k = lv[0]
        if k == 'cell':
            try:
                return st.cells[lv[1]]
            except KeyError:
                raise Limit('read of a dead local')
        if k == 'fld':
            b = lv[1]
            if b[0] == 'obj':
                return self.heap_read(st, lv[2], b[1], b[2])
            if b[0] == 'mpair':
                if lv[2] == 'first':
                    return b[2]
                return self.map_get(st, self.read(st, b[1]), b[2])
            if b[0] == 'ite':
                return vite(b[1], self.read(st, ('fld', b[2], lv[2])), self.read(st, ('fld', b[3], lv[2])))
            r = self.read(st, b)
            return self.fld(r, lv[2])
        if k == 'idx':
            s = self.read(st, lv[1])
            if not isinstance(s, Seq):
                raise Limit('index into %r' % (type(s).__name__,))
            return seq_get(s, lv[2])
        if k == 'obj':
            return Rec(lv[2], {f: self.heap_read(st, f, lv[1], lv[2]) for f, t in self.T.fields(lv[2])})
        if k == 'hf':
            return self.heap_read(st, lv[2], lv[1])
        if k == 'map':
            return self.map_get(st, self.read(st, lv[1]), lv[2])
        if k == 'mpair':
            return Rec('std::pair', {'first': lv[2], 'second': self.map_get(st, self.read(st, lv[1]), lv[2])})
        if k == 'ite':
            return vite(lv[1], self.read(st, lv[2]), self.read(st, lv[3]))
        if k == 'optval':
            return self.read(st, lv[1]).val
        raise Limit('read of %s' % k)

    def fld(self, r, key):
        if isinstance(r, Rec):
            if key in r.f:
                return r.f[key]
            raise Limit('no field %s in %s' % (key, r.cls))
        if isinstance(r, VIte):
            return vite(r.c, self.fld(r.a, key), self.fld(r.b, key))
        raise Limit('field %s of %s' % (key, type(r).__name__))

    def write(self, st, lv, v):
        k = lv[0]
        if k == 'cell':
            st.cells[lv[1]] = v
        elif k == 'fld':
            b = lv[1]
            if b[0] == 'obj':
                self.heap_write(st, lv[2], b[1], v)
            elif b[0] == 'ite':
                self.write(st, ('fld', b[2], lv[2]), vite(b[1], v, self.read(st, ('fld', b[2], lv[2]))))
                self.write(st, ('fld', b[3], lv[2]), vite(b[1], self.read(st, ('fld', b[3], lv[2])), v))
            elif b[0] == 'mpair':
                self.write(st, ('map', b[1], b[2]), v)
            else:
                r = self.read(st, b)
                self.write(st, b, r.set(lv[2], v))
        elif k == 'idx':
            self.write(st, lv[1], seq_set(self.read(st, lv[1]), lv[2], v))
        elif k == 'obj':
            for f, t in self.T.fields(lv[2]):
                self.heap_write(st, f, lv[1], v.f[f])
        elif k == 'hf':
            self.heap_write(st, lv[2], lv[1], v)
        elif k == 'map':
            m = self.read(st, lv[1])
            self.write(st, lv[1], m.up('set', TRUE, lv[2], v))
        elif k == 'ite':
            a, b = self.read(st, lv[2]), self.read(st, lv[3])
            self.write(st, lv[2], vite(lv[1], v, a))
            self.write(st, lv[3], vite(lv[1], self.read(st, lv[3]), v))
        elif k == 'optval':
            o = self.read(st, lv[1])
            self.write(st, lv[1], Opt(o.has, v))
        else:
            raise Limit('write to %s' % k)

    # ------------------------------------------------------------ heap
    def heap_base(self, key, r):
        v = self.T.sym_field(self, key, r)
        h = self.hooks.get('heap_base')
        if h:
            h(self, key, r, v)
        return v

    def region_index(self, r, k, ref):
        """j with ref[k:=j] == r, and the condition under which it exists (n not included)"""
        p = poly(ref)
        c = p.get((k,))
        if c is not None:
            rest = from_poly({m: x for m, x in p.items() if m != (k,)})
            if k not in atoms(rest):
                d = sub(r, rest)
                if c == 1:
                    return d, TRUE
                return fdiv_(d, c), eq(fmod_(d, c), I(0))
        if ref.op == 'uf':
            pos = [i for i, x in enumerate(ref.a[1]) if k in atoms(x)]
            if len(pos) == 1 and pos[0] == len(ref.a[1]) - 1:
                last = ref.a[1][-1]
                pl = poly(last)
                if pl.get((k,)) == 1:
                    rest = sub(last, k)
                    if k not in atoms(rest):
                        pre = ref.a[1][:-1]
                        if r.op == 'uf' and r.a[0] == ref.a[0] and r.a[1][:-1] == pre:
                            return sub(r.a[1][-1], rest), TRUE
                        inv = self.T.inverse(self, ref.a[0], pre)
                        if inv is not None:
                            j = sub(inv(r), rest)
                            return j, eq(subst(ref, {k: j}), r)
        return None, None

    def region_index2(self, r, k, k2, ref):
        """(j, j2) with ref[k := j, k2 := j2] == r, for references base + k * a + k2 * b (b greater than a)"""
        p = poly(ref)
        a, b = p.get((k,)), p.get((k2,))
        rest = from_poly({m: x for m, x in p.items() if m not in ((k,), (k2,))})
        if a is None or b is None or {k, k2} & atoms(rest) or {a, b} != {1, 1 << 50}:
            return None
        lo, hi = {}, {}
        for m, x in poly(sub(r, rest)).items():
            q, z = divmod(x, 1 << 50)
            if z >= 1 << 49:
                q, z = q + 1, z - (1 << 50)
            if q:
                hi[m] = q
            if z:
                lo[m] = z
        lo, hi = from_poly(lo), from_poly(hi)
        # references are only followed with both indices in range, where the decomposition is unique
        return (lo, hi) if a == 1 else (hi, lo)

    def heap_read(self, st, key, r, cls=None):
        """cls: the static class of the object, when it is known"""
        if r.op == 'ite':
            return vite(r.a[0], self.heap_read(st, key, r.a[1], cls), self.heap_read(st, key, r.a[2], cls))
        ups = st.heap.get(key, ())
        acc = []   # (cond, value) from the latest
        for i in range(len(ups) - 1, -1, -1):
            u = ups[i]
            for y in (u[2:3] if u[0] in ('rg', 'in') else (u[2], u[6]) if u[0] == 'rg2' else ()):
                if y in atoms(r):
                    m = {y: fresh('j', 'I', 0, None)}
                    u = tuple(m.get(x, x) if isinstance(x, Term) and x.op == 'var' else x if isinstance(x, str) else vsubst(x, m) for x in u)
            if u[0] == 'hv':
                # everything may have changed, to values that only the call determines
                self.hvhit = True
                g = u[1]
                if DYN in atoms(g):              # objects of one class only
                    subs = self.T.subclasses(cls) if cls else ()
                    g = subst(g, {DYN: I(self.T.cid(subs[0])) if len(subs) == 1 else self.heap_read(st, '%dyn', r)})
                    if g is FALSE:
                        continue
                acc.append((g, self.T.sym(self, self.T.ftype(key), u[2] + '.' + key, u[3] + (self.hvmap.get(r, r),))))
                if g is TRUE:
                    break
                continue
            if u[0] == 'in':
                # insertions into the maps of many objects
                _, g, k, n, ref, mk, mv = u
                g = and_(g, eq(ref, r))
                if g is FALSE:
                    continue
                v = self.heap_read(State(st.cells, dict(st.heap, **{key: ups[:i]}), st.pc), key, r, cls)
                acc.append((TRUE, map_up(v, 'each', g, mk, mv, k, n)))
                break
            if u[0] == 'pt':
                c = and_(u[1], eq(u[2], r))
                if c is FALSE:
                    continue
                acc.append((c, u[3]))
                if c is TRUE:
                    break
            elif u[0] == 'rg2':
                _, g, k, n, ref, val, k2, n2 = u
                if eq(ref, r) is FALSE:
                    continue
                ji = self.region_index2(r, k, k2, ref)
                if ji is None:
                    raise Limit('read through an object family without an index function')
                j, j2 = ji
                m = {k: j, k2: j2}
                c = and_(le(I(0), j2), lt(j2, n2), le(I(0), j), lt(j, subst(n, {k2: j2})), subst(g, m))
                if c is FALSE:
                    continue
                acc.append((c, vsubst(val, m)))
                if c is TRUE:
                    break
            else:
                _, g, k, n, ref, val = u
                j, cond = self.region_index(r, k, ref)
                if j is None:
                    # can the region contain r at all?
                    if eq(ref, r) is FALSE:
                        continue
                    raise Limit('read through an object family without an index function')
                c = and_(le(I(0), j), lt(j, n), cond)
                if c is FALSE:
                    continue
                c = and_(c, subst(g, {k: j}))
                if c is FALSE:
                    continue
                acc.append((c, vsubst(val, {k: j})))
                if c is TRUE:
                    break
        if len(acc) > 1:
            for i in range(1, len(acc)):
                if acc[i][0] is not TRUE and or_(*[a[0] for a in acc[:i + 1]]) is TRUE:
                    acc[i:] = [(TRUE, acc[i][1])]      # the cases are exhaustive
                    break
        if acc and acc[-1][0] is TRUE:
            v = acc.pop()[1]
        elif acc and r.rng[0] >= (1 << 44) and r.op != 'var':
            v = acc.pop()[1]    # an object allocated here: always initialised
        else:
            v = self.heap_base(key, r)
        for c, x in reversed(acc):
            v = vite(c, x, v)
        return v

    def heap_write(self, st, key, r, v):
        if r.op == 'ite':
            for g, q in ite_leaves(r):
                st.heap[key] = st.heap.get(key, ()) + (('pt', g, q, v),)
            return
        ups = st.heap.get(key, ())
        if ups and ups[-1][0] == 'pt' and ups[-1][2] is r and ups[-1][1] is TRUE:
            ups = ups[:-1]
        st.heap[key] = ups + (('pt', TRUE, r, v),)

    def alloc(self, st, cls):
        """fresh object reference (unwritten)"""
        self.nref += 1
        base = (self.nref * 2 + (1 if self.spec_mode else 0)) * (REFSP << 110)
        r = I(base)
        for i, k in enumerate(self.loopvars):
            r = add(r, scale(k, 1 << (50 * i)))
        self.heap_write(st, '%dyn', r, I(self.T.cid(cls)))
        return r

    def new_object(self, st, cls, rec):
        r = self.alloc(st, cls)
        if hasattr(rec, 'hdr'):
            self.heap_write(st, '%rhdr', r, rec.hdr)
            self.heap_write(st, '%rcount', r, I(0))
        for f, t in self.T.fields(cls):
            if f in rec.f:
                self.heap_write(st, f, r, rec.f[f])
        return r

    # ------------------------------------------------------------ maps
    def map_has(self, st, m, key):
        v = Bc(False) if m.base[0] == 'empty' else uf(m.base[1] + '.has', tuple(m.base[2]) + tuple(flat_key(key)), 'B')
        for u in m.ups:
            if u[0] in ('set', 'ins'):
                v = or_(and_(u[1], key_eq(u[2], key)), v)
            elif u[0] == 'del':
                v = and_(v, not_(and_(u[1], key_eq(u[2], key))))
            elif u[0] in ('each', 'eachins'):
                v = or_(self.each_has(u, key)[0], v)
            elif u[0] == 'clear':
                v = and_(not_(u[1]), v)
        return v

    def each_has(self, u, key):
        """u = ('each', guard, key, val, k, n): (exists an index, the last such index)"""
        _, g, kk, val, k, n = u
        fk, fr = flat_key(kk), flat_key(key)
        if any(k in atoms(t) for t in fr):
            k2 = fresh('j', 'I', 0, None)      # not the variable of the key asked for
            fk, g, k = [subst(t, {k: k2}) for t in fk], subst(g, {k: k2}), k2
        # affine or invertible key
        if len(fk) == 1:
            j, cond = self.region_index(fr[0], k, fk[0])
            if j is not None:
                return and_(le(I(0), j), lt(j, n), cond, subst(g, {k: j})), j
        inv = self.T.key_inverse(self, fk, fr, k)
        if inv is not None:
            j, cond = inv
            return and_(le(I(0), j), lt(j, n), cond, subst(g, {k: j})), j
        x = and_(g, *[eq(a, b) for a, b in zip(fk, fr)])
        return self.exists(n, k, x) if u[0] == 'eachins' else self.exists_last(n, k, x)

    def map_get(self, st, m, key):
        if m.base[0] == 'empty':
            v = None
        else:
            v = self.T.sym(self, m.vt, m.base[1] + '.get', tuple(m.base[2]) + tuple(flat_key(key)))
            h = self.hooks.get('map_base')
            if h:
                h(self, m, key, v)
        for i, u in enumerate(m.ups):
            if u[0] in ('set', 'ins'):
                c = and_(u[1], key_eq(u[2], key))
                if u[0] == 'ins':
                    c = and_(c, not_(self.map_has(st, MapV(m.base, m.ups[:i], m.kt, m.vt), key)))
                v = u[3] if v is None else vite(c, u[3], v)
            elif u[0] in ('each', 'eachins'):
                c, j = self.each_has(u, key)
                if u[0] == 'eachins':
                    c = and_(c, not_(self.map_has(st, MapV(m.base, m.ups[:i], m.kt, m.vt), key)))
                x = vsubst(u[3], {u[4]: j})
                v = x if v is None else vite(c, x, v)
        if v is None:
            v = self.T.sym(self, m.vt, '%nomap', tuple(flat_key(key)))
        return v

    # ------------------------------------------------------------ quantifier ghosts
    def exists(self, n, k, x, lo=None):
        """(exists 0 <= k < n with x, the first such k)"""
        if x is FALSE or n is I(0):
            return FALSE, I(0)
        if k not in atoms(x):
            return and_(x, lt(I(0), n)), I(0)
        t = one_point(x, k)
        if t is not None:
            return and_(le(I(0), t), lt(t, n), subst(x, {k: t})), t
        if n.op == 'int' and n.a <= 32:
            xs = [subst(x, {k: I(i)}) for i in range(n.a)]
            w = I(n.a - 1)
            for i in range(n.a - 2, -1, -1):
                w = ite(xs[i], I(i), w)
            return or_(*xs), w
        ex = ghost('ex', [k], [x], 'B', extra=[n])
        w = ghost('wit', [k], [x], 'I', 0, LOOPMAX, extra=[n])
        return ex, w

    def exists_last(self, n, k, x):
        if x is FALSE or n is I(0):
            return FALSE, I(0)
        t = one_point(x, k)
        if t is not None:
            return and_(le(I(0), t), lt(t, n), subst(x, {k: t})), t
        if k not in atoms(x):
            return and_(x, lt(I(0), n)), sub(n, I(1))
        ex = ghost('ex', [k], [x], 'B', extra=[n])
        w = ghost('last', [k], [x], 'I', 0, LOOPMAX, extra=[n])
        return ex, w

    def forall(self, n, k, x):
        return not_(self.exists(n, k, not_(x))[0])

    def _qv(self, k):
        return fresh('q', 'I', 0, None)

    def sum_facts(self):
        """unfolding facts of the sum symbols that occur"""

    # ------------------------------------------------------------ throw
    def throw(self, st, cond=TRUE):
        """throw when cond; the state continues without"""
        g = and_(st.pc, cond)
        if g is FALSE:
            return
        s = st.copy()
        s.pc = g
        self.throws.append(Ev(s))
        st.pc = and_(st.pc, not_(cond))

    # ------------------------------------------------------------ statements
    def block(self, st, ss):
        for s in ss:
            if st.pc is FALSE:
                return
            self.stmt(st, s)

    def stmt(self, st, s):
        if st.pc is FALSE:
            return
        if 'l' in s and self.frames:
            self.where = '%s:%s' % (self.frames[-1].fun.get('fun', '?').split('(')[0], s['l'])
        getattr(self, 's_' + s['k'])(st, s)

    def s_block(self, st, s):
        self.block(st, s['s'])

    def s_expr(self, st, s):
        e = s['e']
        self.ev_discard(st, e)

    def ev_discard(self, st, e):
        if e.get('lv') or e.get('xv'):
            self.lv(st, e)
        else:
            self.ev(st, e)

    def s_decl(self, st, s):
        for v in s['v']:
            self.declare(st, v)
            if st.pc is FALSE:
                return

    def declare(self, st, v):
        t = v['t']
        fr = self.frames[-1]
        if t[0] == 'ref':
            fr.env[v['id']] = self.lv(st, v['init'])
            self.bind(v, fr.env[v['id']])
            return
        if 'init' in v and v['init'] is not None:
            val = self.ev(st, v['init'])
            val = self.T.adapt(self, st, val, t)
        else:
            val = self.T.default(self, st, t)
        lv = self.cell(st, val, '_' + v['n'])
        self.ctype[lv[1]] = t
        fr.env[v['id']] = lv
        self.bind(v, lv)

    def bind(self, v, lv):
        """structured bindings of a pair"""
        for i, b in enumerate(v.get('bindings') or ()):
            if i > 1 or not (b.get('e') and b['e'].get('k') == 'var'):
                raise Limit('structured binding')
            for x in (b['id'], b['e']['id']):
                self.frames[-1].env[x] = ('fld', lv, ('first', 'second')[i])

    def branch(self, st, c, fa, fb):
        """run fa under c and fb under not c on copies, merge into st"""
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        a, b = st.copy(), st.copy()
        a.pc, b.pc = and_(st.pc, c), and_(st.pc, not_(c))
        for x, f in ((a, fa), (b, fb)):
            if x.pc is FALSE:
                continue
            nf, no, nt = len(self.facts), len(self.obs), len(self.throws)
            try:
                f(x)
            except Limit as e:
                y = State(pc=and_(st.pc, c if x is a else not_(c)))
                if self.decide(y, FALSE):
                    x.pc = FALSE
                    del self.obs[no:]
                    continue
                raise
        st.become(merge_states(a, b, c if a.pc is not FALSE and b.pc is not FALSE else None))
        if (a.pc is FALSE) != (b.pc is FALSE):
            self.settle(st)

    def settle(self, st):
        """positions of streams that the path just taken decides"""
        us = st.heap.get('%stream', ())
        if us and us[-1][0] == 'pt' and isinstance(us[-1][3], Rec):
            s, have = us[-1][3], conj(st.pc)
            for f in ('g', 'p'):
                t = s.f.get(f)
                if isinstance(t, Term) and t.op == 'ite' and (t.a[0] in have or not_(t.a[0]) in have):
                    s = s.set(f, t.a[1] if t.a[0] in have else t.a[2])
            if s is not us[-1][3]:
                st.heap['%stream'] = us[:-1] + (us[-1][:3] + (s,),)

    def s_if(self, st, s):
        if s.get('init'):
            self.stmt(st, s['init'])
        if s.get('cv'):
            self.declare(st, s['cv'])
        c = self.cond(st, s['c'])
        if st.pc is FALSE:
            return
        self.branch(st, c, lambda x: self.stmt(x, s['a']), lambda x: self.stmt(x, s['b']) if s.get('b') else None)

    def s_return(self, st, s):
        fr = self.frames[-1]
        rt = fr.fun['ret']
        v = None
        if s.get('e') is not None:
            if rt[0] == 'ref':
                v = self.lv(st, s['e'])
            else:
                if self.tail_of and len(self.frames) == 1:
                    e = s['e']
                    while e['k'] in ('cast', 'temp', 'paren') or (e['k'] == 'ctor' and len(e['args']) == 1 and e.get('copy')):
                        e = e['e'] if 'e' in e else e['args'][0]
                    self.tail_e = e
                v = self.ev(st, s['e'])
                self.tail_e = None
                if v is not None and rt[0] != 'void':
                    v = self.T.adapt(self, st, v, rt)
        if st.pc is FALSE:
            return
        fr.rets.append(Ev(st.copy(), v))
        st.pc = FALSE

    def s_break(self, st, s):
        self.frames[-1].brk.append(Ev(st.copy()))
        st.pc = FALSE

    def s_continue(self, st, s):
        self.frames[-1].cont.append(Ev(st.copy()))
        st.pc = FALSE

    def s_switch(self, st, s):
        if s.get('init'):
            self.stmt(st, s['init'])
        v = self.ev(st, s['c'])
        if st.pc is FALSE:
            return
        items = []
        def flat(x):
            if x['k'] == 'block':
                for y in x['s']:
                    flat(y)
            elif x['k'] == 'case':
                items.append(('case', self.const(x['v'])))
                flat(x['s'])
            elif x['k'] == 'default':
                items.append(('default', None))
                flat(x['s'])
            else:
                items.append(('stmt', x))
        flat(s['body'])
        vals = [i[1] for i in items if i[0] == 'case']
        fr = self.frames[-1]
        old, fr.brk = fr.brk, []
        entry = st.copy()
        cur = st.copy()
        cur.pc = FALSE
        anyc = or_(*[eq(v, I(x)) for x in vals]) if vals else FALSE
        has_default = any(i[0] == 'default' for i in items)
        for kind, x in items:
            if kind in ('case', 'default'):
                c = eq(v, I(x)) if kind == 'case' else not_(anyc)
                e = entry.copy()
                e.pc = and_(entry.pc, c)
                cur = merge_states(e, cur, c if cur.pc is not FALSE else None) if cur.pc is not FALSE else e
                cur = cur.copy()
            elif cur.pc is not FALSE:
                self.stmt(cur, x)
        evs = fr.brk + [Ev(cur)]
        if not has_default:
            e = entry.copy()
            e.pc = and_(entry.pc, not_(anyc))
            evs.append(Ev(e))
        fr.brk = old
        st.become(merge_events(evs)[0])

    def s_case(self, st, s):
        self.stmt(st, s['s'])
    s_default = s_case

    def const(self, e):
        st = State()
        v = self.ev(st, e)
        if v.op != 'int':
            raise Limit('case label')
        return v.a

    def s_try(self, st, s):
        old, self.throws = self.throws, []
        self.stmt(st, s['body'])
        caught, self.throws = self.throws, old
        caught = [e for e in caught if e.st.pc is not FALSE]
        if not caught:
            return
        if len(s['h']) != 1:
            raise Limit('several catch handlers')
        h = s['h'][0]
        self.notes.add('a catch handler is taken to catch every exception of its try block')
        hs = merge_events(caught)[0].copy()
        if h.get('v'):
            self.frames[-1].env[h['v']['id']] = self.cell(hs, Opaque('exception'))
        self.stmt(hs, h['body'])
        st.become(merge_states(st.copy(), hs))

    # ------------------------------------------------------------ loops
    def stepping(self, c):
        """a condition that steps one local once with x-- or x++ : (condition without the step, the step's node)"""
        found, other = [], []
        def go(x):
            if isinstance(x, list):
                return [go(y) for y in x]
            if not isinstance(x, dict):
                return x
            k = x.get('k')
            if k == 'un' and x['op'] in ('--post', '++post') and x['e'].get('k') == 'var':
                found.append(x)
                return {'k': 'cast', 'ck': 'LValueToRValue', 'e': x['e'], 't': x['t']}
            if k == 'un' and x['op'] in ('++', '--', '--post', '++post') or k in ('call', 'cond', 'lambda', 'assignop', 'temp', 'new', 'icall', 'stdinit') \
                    or k == 'bin' and (x['op'] in ('&&', '||', ',') or x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=')):
                other.append(x)
            return {a: go(b) for a, b in x.items()}
        y = go(c)
        if len(found) != 1 or other:
            return None
        def uses(x):
            if isinstance(x, list):
                return sum(map(uses, x))
            if not isinstance(x, dict):
                return 0
            return (x.get('k') == 'var' and x.get('id') == found[0]['e']['id']) + sum(map(uses, x.values()))
        return (y, found[0]) if uses(c) == 1 else None

    def s_while(self, st, s):
        w = self.stepping(s['c']) if isinstance(s['c'], dict) else None
        if w:
            c, x = w
            def body(y):
                self.ev_discard(y, x)
                self.stmt(y, s['body'])
            self.loop(st, lambda y: self.cond(y, c), body, None, after=lambda y: self.ev_discard(y, x))
            return
        self.loop(st, lambda x: self.cond(x, s['c']), lambda x: self.stmt(x, s['body']), None)

    def s_do(self, st, s):
        fr = self.frames[-1]
        # first iteration, then a while loop
        ob, oc = fr.brk, fr.cont
        fr.brk, fr.cont = [], []
        self.stmt(st, s['body'])
        brk, cont = fr.brk, fr.cont
        fr.brk, fr.cont = ob, oc
        if cont:
            st.become(merge_events([Ev(st.copy())] + cont)[0])
        self.loop(st, lambda x: self.cond(x, s['c']), lambda x: self.stmt(x, s['body']), None)
        if brk:
            st.become(merge_events([Ev(st.copy())] + brk)[0])

    def node_walk(self, s):
        """`for (it = m.begin(); it != m.end(); ++it)` over a map that uses `it` only as *it and it->:
        (variable, container expression), or None"""
        i, c, n = s.get('init'), s.get('c'), s.get('inc')
        if not i or not c or not n or i.get('k') != 'decl' or len(i['v']) != 1:
            return None
        v = i['v'][0]
        if v['t'][0] != 'rec' or v['t'][1] not in ('std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
            return None
        def nodes(x):
            if isinstance(x, dict):
                yield x
                x = x.values()
            if isinstance(x, (list, tuple)) or type(x).__name__ == 'dict_values':
                for y in x:
                    yield from nodes(y)
        def strip(x):
            while isinstance(x, dict) and x.get('k') == 'cast' and x.get('ck') in ('NoOp', 'LValueToRValue'):
                x = x['e']
            return x
        def uses(x):
            return sum(1 for y in nodes(x) if y.get('k') == 'var' and y.get('id') == v['id'])
        def calls(x, names):
            return [y for y in nodes(x) if y.get('k') == 'call' and y.get('q', '').rsplit('::', 1)[-1] in names]
        if not v.get('init'):
            return None
        b, e, ne, inc = calls(v['init'], ('begin', 'cbegin')), calls(c, ('end', 'cend')), calls(c, ('operator!=',)), calls(n, ('operator++',))
        if not (len(b) == len(e) == len(ne) == len(inc) == 1) or len(calls(v['init'], ('end', 'find', 'lower_bound'))) or uses(c) != 1 or uses(n) != 1:
            return None
        ob, oe = strip(b[0].get('obj')), strip(e[0].get('obj'))
        if ob is None or ob != oe or any(y.get('k') == 'call' for y in nodes(ob)) or strip(n).get('k') != 'call' or strip(c).get('k') != 'call':
            return None
        good = sum(1 for y in calls(s['body'], ('operator->', 'operator*')) if strip(y.get('obj') or {}).get('id') == v['id'] and strip(y['obj']).get('k') == 'var')
        return (v, ob) if good == uses(s['body']) else None

    def s_for(self, st, s):
        w = self.node_walk(s)
        if w:
            from .values import MIt
            v, ob = w
            clv = self.lv(st, ob)
            cont = self.read(st, clv)
            if isinstance(cont, MapV):
                it = self.cell(st, I(0), '_it')
                self.ctype[it[1]] = ['idx']
                enum = self.T.enumerate(self, st, cont)
                def step(x):
                    k = enum.key(self.read(x, it))
                    self.frames[-1].env[v['id']] = self.cell(x, MIt(clv, k, TRUE), '_' + v['n'])
                    self.bind(v, self.frames[-1].env[v['id']])
                    self.stmt(x, s['body'])
                self.loop(st, lambda x: lt(self.read(x, it), enum.n), step,
                          lambda x: self.write(x, it, add(self.read(x, it), I(1))))
                return
        if s.get('init'):
            self.stmt(st, s['init'])
        self.loop(st, (lambda x: self.cond(x, s['c'])) if s.get('c') else (lambda x: TRUE),
                  lambda x: self.stmt(x, s['body']),
                  (lambda x: self.ev_discard(x, s['inc'])) if s.get('inc') else None)

    def s_forrange(self, st, s):
        if s.get('init'):
            self.stmt(st, s['init'])
        r = s['range']
        clv = self.lv(st, r) if r.get('lv') or r.get('xv') else self.cell(st, self.ev(st, r))
        v = s['v']
        it = self.cell(st, I(0), '_it')
        self.ctype[it[1]] = ['idx']
        cont = self.read(st, clv)
        if isinstance(cont, MapV):
            enum = self.T.enumerate(self, st, cont)
            n = enum.n
            def elem(x):
                key = enum.key(self.read(x, it))
                if enum.isset:
                    return self.cell(x, key)
                return ('mpair', clv, key)
        elif isinstance(cont, Seq):
            n = cont.n
            def elem(x):
                return ('idx', clv, self.read(x, it))
        elif isinstance(cont, Rec) and cont.cls + '::begin() const' in self.prog.funs and r['t'][0] == 'rec':
            b, e = (self.invoke(st, cont.cls + '::%s() const' % f, clv, []) for f in ('begin', 'end'))
            if not isinstance(b, It) or not isinstance(e, It) or b.kind != 'vec' or lvkey(b.lv) != lvkey(e.lv):
                raise Limit('range over %s' % cont.cls)
            n = sub(e.pos, b.pos)
            def elem(x):
                return ('idx', b.lv, add(b.pos, self.read(x, it)))
        else:
            raise Limit('range over %s' % type(cont).__name__)
        self.forrange(st, s, clv, it, n, elem)

    def forrange(self, st, s, clv, it, n, elem):
        v = s['v']
        def step(x):
            e = elem(x)
            if v['t'][0] == 'ref':
                self.frames[-1].env[v['id']] = e
            else:
                val = self.copy_value(x, v['t'], e)
                self.frames[-1].env[v['id']] = self.cell(x, val, '_' + v['n'])
            self.bind(v, self.frames[-1].env[v['id']])
            self.stmt(x, s['body'])
        self.loop(st, lambda x: lt(self.read(x, it), n), step,
                  lambda x: self.write(x, it, add(self.read(x, it), I(1))))

    def loop(self, st, cond, body, inc, after=None):
        fr = self.frames[-1] if self.frames else None
        def step(x, brk):
            ob, oc = fr.brk, fr.cont
            fr.brk, fr.cont = brk, []
            try:
                body(x)
                cont = fr.cont
            finally:
                fr.brk, fr.cont = ob, oc
            if cont:
                x.become(merge_events([Ev(x.copy())] + cont)[0])
            if inc and x.pc is not FALSE:
                inc(x)
        breaks = []
        from .loops import Snap
        s0, snap = st.copy(), Snap(self)
        marks = (self.obs, self.throws, fr.rets if fr else [])
        lens = [len(x) for x in marks]
        for i in range(80):
            if st.pc is FALSE:
                break
            c = cond(st)
            if st.pc is FALSE:
                break
            if or_(not_(st.pc), c) is TRUE:
                step(st, breaks)
                continue
            if and_(st.pc, c) is FALSE:
                break
            # symbolic: summarise, from the first iteration when that succeeds
            if i > 0:
                cur, now, tails = st.copy(), Snap(self), [x[n:] for x, n in zip(marks, lens)]
                snap.restore()
                for x, n in zip(marks, lens):
                    del x[n:]
                y, br = s0.copy(), []
                try:
                    self.summarise(y, cond, step, br)
                    st.become(y)
                    breaks = br
                    break
                except Limit:
                    now.restore()
                    for x, n, t in zip(marks, lens, tails):
                        x[n:] = t
                    st.become(cur)
            self.close_loop(st, cond, step, breaks, marks, s0)
            break
        else:
            self.close_loop(st, cond, step, breaks, marks, s0)
        if after and st.pc is not FALSE:
            after(st)
        if breaks:
            st.become(merge_events([Ev(st.copy())] + breaks)[0])

    def close_loop(self, st, cond, step, breaks, marks, s0):
        if self.lock is None:
            return self.summarise(st, cond, step, breaks)
        from .loops import Snap
        from .lockstep import body_loop
        cur, now, lens = st.copy(), Snap(self), [len(x) for x in marks]
        nb, no, d = len(breaks), len(self.opq), self.dry
        try:
            self.summarise(st, cond, step, breaks)
        except Limit as e:
            now.restore()
            for x, n in zip(marks, lens):
                del x[n:]
            del self.opq[no:]
            del breaks[nb:]
            st.become(cur)
            try:
                body_loop(self, st, cond, step)
            except Limit as f:
                raise Limit('%s (%s)' % (e, f))

    def summarise(self, st, cond, step, breaks, n=None):
        from .loops import summarise
        summarise(self, st, cond, step, breaks, n)

    # ------------------------------------------------------------ expressions
    def cond(self, st, e):
        v = self.ev(st, e)
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, Term):
            if v.sort == 'B':
                return v
            if v.sort == 'I':
                return ne(v, I(0))
            return not_(dcmp('eq', v, D(0.0)))
        if isinstance(v, Ptr):
            return TRUE
        if isinstance(v, VIte):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Str):
            return TRUE
        raise Limit('truth of %s' % type(v).__name__)

    def ev(self, st, e):
        if e.get('lv') or e.get('xv'):
            lv = self.lv(st, e)
            return self.read(st, lv) if st.pc is not FALSE else self.T.sym(self, e['t'], '%dead', ())
        return getattr(self, 'e_' + e['k'])(st, e)

    def lv(self, st, e):
        f = getattr(self, 'l_' + e['k'], None)
        if f is not None and (e.get('lv') or e.get('xv')):
            return f(st, e)
        if not (e.get('lv') or e.get('xv')):
            return self.cell(st, self.ev(st, e), '_tmp')
        raise Limit('lvalue of kind %s' % e['k'])

    def e_int(self, st, e):
        n = int(e['v'])
        return Bc(n != 0) if e['t'][0] == 'bool' else I(n)

    def e_dbl(self, st, e):
        if e['t'][1] == 32:
            import struct
            b = int(e['v'])
            return D(struct.unpack('<f', struct.pack('<I', b))[0]) if b < (1 << 32) else Dbits(b)
        return Dbits(int(e['v']))

    def e_null(self, st, e):
        return I(0)

    def e_zero(self, st, e):
        return self.T.zero(self, e['t'])

    def e_str(self, st, e):
        return Str(bytes.fromhex(e['hex']))
    def l_str(self, st, e):
        return self.cell(st, bytes_lit(bytes.fromhex(e['hex']) + b'\0'), '_lit')

    def e_this(self, st, e):
        lv = self.frames[-1].this
        return lv[1] if lv[0] == 'obj' else Ptr(lv)

    def e_definit(self, st, e):
        return self.ev(st, e['e'])

    def e_stdinit(self, st, e):
        return self.ev(st, e['e'])

    def e_fnref(self, st, e):
        return Fn(e)
    l_fnref = e_fnref

    def l_var(self, st, e):
        fr = self.frames[-1]
        if e.get('global') is not None and e['id'] not in fr.env:
            g = self.prog.globs.get(e['global'])
            return self.T.global_lv(self, st, e['global'], g, e)
        try:
            return fr.env[e['id']]
        except KeyError:
            raise Limit('unknown variable %s' % e.get('n'))

    def l_member(self, st, e):
        key = e['in'] + '::' + e['n']
        b = e['e']
        if e['arrow']:
            p = self.ev(st, b)
            base = self.deref(st, p, b['t'][1] if b['t'][0] == 'ptr' else None)
        else:
            base = self.lv(st, b)
        lv = ('fld', base, self.T.fkey(e['in'], e['n']))
        ft = self.T.ftype(lv[2])
        if ft is not None and ft[0] == 'ref':
            p = self.read(st, lv)
            return self.deref(st, p, ft[1])
        return lv

    def e_member(self, st, e):
        if not e['arrow']:
            b = self.ev(st, e['e'])
            return self.fld(b, self.T.fkey(e['in'], e['n']))
        raise Limit('member rvalue')

    def deref(self, st, p, t):
        """lvalue a pointer value refers to; t: pointee type"""
        if isinstance(p, Ptr):
            return p.lv
        if isinstance(p, VIte):
            return lv_ite(p.c, self.deref(st, p.a, t), self.deref(st, p.b, t))
        if isinstance(p, Term):
            self.ob(st, 'null', ne(p, I(0)), 'pointer dereferenced is not null')
            if t is not None and t[0] == 'rec':
                if self.T.is_stream(t):
                    return ('hf', p, '%stream')
                return ('obj', p, t[2])
            raise Limit('dereference of a pointer to %s' % (t,))
        if isinstance(p, It):
            return self.T.it_deref(self, st, p)
        raise Limit('dereference of %s' % type(p).__name__)

    def l_index(self, st, e):
        p = self.ev(st, e['e'])
        i = self.ev(st, e['i'])
        return self.index(st, p, i)

    def index(self, st, p, i):
        if isinstance(p, Ptr) and p.lv[0] == 'idx':
            pos = add(p.lv[2], i)
            s = self.read(st, p.lv[1])
            self.ob(st, 'bounds', and_(le(I(0), pos), lt(pos, s.n)), 'array index in range')
            return ('idx', p.lv[1], pos)
        if isinstance(p, VIte):
            return lv_ite(p.c, self.index(st, p.a, i), self.index(st, p.b, i))
        raise Limit('index of %s' % type(p).__name__)

    def l_un(self, st, e):
        op = e['op']
        if op == '*':
            p = self.ev(st, e['e'])
            t = e['e']['t']
            return self.deref(st, p, t[1] if t[0] == 'ptr' else None)
        if op in ('++', '--'):
            lv = self.lv(st, e['e'])
            self.incdec(st, lv, e['e']['t'], op)
            return lv
        raise Limit('lvalue unary ' + op)

    def incdec(self, st, lv, t, op):
        v = self.read(st, lv)
        one = I(1)
        if isinstance(v, Ptr) and v.lv[0] == 'idx':
            n = Ptr(('idx', v.lv[1], add(v.lv[2], one if op == '++' else I(-1))))
        elif v.sort == 'D':
            n = dop('fadd' if op == '++' else 'fsub', v, D(1.0))
        else:
            n = self.arith(st, '+' if op == '++' else '-', v, one, t if t[0] != 'int' or t[1] >= 32 else ['int', 32, True])
            n = self.int_cast(n, t)
        self.write(st, lv, n)
        return v, n

    def e_un(self, st, e):
        op = e['op']
        t = e['t']
        if op == '&':
            if e['e']['k'] == 'fnref':
                return Fn(e['e'])
            self.addr_of = e['e']
            lv = self.lv(st, e['e'])
            if lv[0] == 'obj':
                return lv[1]
            return Ptr(lv)
        if op in ('++post', '--post'):
            lv = self.lv(st, e['e'])
            return self.incdec(st, lv, e['e']['t'], op[:2])[0]
        if op in ('++', '--'):
            lv = self.lv(st, e['e'])
            return self.incdec(st, lv, e['e']['t'], op)[1]
        v = self.ev(st, e['e'])
        if op == '!':
            return not_(self.truth(v))
        if op == '-':
            if v.sort == 'D':
                return dop('fneg', v)
            return self.arith(st, '-', I(0), v, t)
        if op == '+':
            return v
        if op == '~':
            return wrap(bnot(v), t[1], t[2])
        raise Limit('unary ' + op)

    def e_bin(self, st, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(st, e['a'])
            if st.pc is FALSE:
                return a
            if a is (FALSE if op == '&&' else TRUE):
                return a
            g = a if op == '&&' else not_(a)
            sub_ = st.copy()
            sub_.pc = and_(st.pc, g)
            if sub_.pc is FALSE:
                return a
            b = self.cond(sub_, e['b'])
            other = st.copy()
            other.pc = and_(st.pc, not_(g))
            if sub_.pc is FALSE:
                st.become(other)
                return a
            st.become(merge_states(sub_, other, g if other.pc is not FALSE else None))
            return and_(a, b) if op == '&&' else or_(a, b)
        if op == ',':
            self.ev_discard(st, e['a'])
            return self.ev(st, e['b'])
        a = self.ev(st, e['a'])
        b = self.ev(st, e['b'])
        if st.pc is FALSE:
            return self.T.sym(self, e['t'], '%dead', ())
        return self.binop(st, op, a, b, e['t'], e['a']['t'], e['b']['t'])

    def binop(self, st, op, a, b, t, ta, tb):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(st, op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+' and isinstance(b, Ptr):
                a, b = b, a
            if op in '+-' and isinstance(b, Term) and a.lv[0] == 'idx':
                return Ptr(('idx', a.lv[1], add(a.lv[2], b if op == '+' else neg(b))))
            if op == '-' and isinstance(b, Ptr) and a.lv[0] == b.lv[0] == 'idx' and lvkey(a.lv[1]) == lvkey(b.lv[1]):
                return sub(a.lv[2], b.lv[2])
            raise Limit('pointer arithmetic')
        if isinstance(a, VIte) or isinstance(b, VIte):
            if isinstance(a, VIte):
                return vite(a.c, self.binop(st, op, a.a, b, t, ta, tb), self.binop(st, op, a.b, b, t, ta, tb))
            return vite(b.c, self.binop(st, op, a, b.a, t, ta, tb), self.binop(st, op, a, b.b, t, ta, tb))
        if not isinstance(a, Term) or not isinstance(b, Term):
            raise Limit('operator %s on %s' % (op, type(a).__name__))
        return self.arith(st, op, a, b, t)

    def compare(self, st, op, a, b):
        if isinstance(a, Term) and isinstance(b, Term):
            if a.sort == 'B' and b.sort == 'I':
                a = ite(a, I(1), I(0))
            if b.sort == 'B' and a.sort == 'I':
                b = ite(b, I(1), I(0))
            if a.sort == 'B':
                if op in ('==', '!='):
                    r = iff(a, b)
                    return r if op == '==' else not_(r)
                a, b = ite(a, I(1), I(0)), ite(b, I(1), I(0))
            if a.sort == 'D':
                if op == '<': return dcmp('lt', a, b)
                if op == '>': return dcmp('lt', b, a)
                if op == '<=': return dcmp('le', a, b)
                if op == '>=': return dcmp('le', b, a)
                r = dcmp('eq', a, b)
                return r if op == '==' else not_(r)
            if op == '<': return lt(a, b)
            if op == '>': return lt(b, a)
            if op == '<=': return le(a, b)
            if op == '>=': return le(b, a)
            return eq(a, b) if op == '==' else ne(a, b)
        if isinstance(a, VIte):
            return ite(a.c, self.compare(st, op, a.a, b), self.compare(st, op, a.b, b))
        if isinstance(b, VIte):
            return ite(b.c, self.compare(st, op, a, b.a), self.compare(st, op, a, b.b))
        if op in ('==', '!='):
            r = self.same_ptr(a, b)
            return r if op == '==' else not_(r)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv[0] == b.lv[0] == 'idx' and lvkey(a.lv[1]) == lvkey(b.lv[1]):
            return self.compare(st, op, a.lv[2], b.lv[2])
        raise Limit('compare %s %s' % (type(a).__name__, type(b).__name__))

    def same_ptr(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if lvkey(a.lv) == lvkey(b.lv):
                return TRUE
            if a.lv[0] == b.lv[0] == 'idx' and lvkey(a.lv[1]) == lvkey(b.lv[1]):
                return eq(a.lv[2], b.lv[2])
            if a.lv[0] == b.lv[0] == 'cell':
                return FALSE
        if isinstance(a, Ptr) and isinstance(b, Term) and b is I(0) or isinstance(b, Ptr) and isinstance(a, Term) and a is I(0):
            return FALSE
        raise Limit('pointer comparison')

    def arith(self, st, op, a, b, t):
        if t[0] == 'flt':
            if a.sort == 'I':
                a = i2d(a)
            if b.sort == 'I':
                b = i2d(b)
            n = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}.get(op)
            if not n:
                raise Limit('float ' + op)
            r = dop(n, a, b)
            return r if t[1] == 64 else dop('f32', r)
        if a.sort == 'B':
            a = ite(a, I(1), I(0))
        if b.sort == 'B':
            b = ite(b, I(1), I(0))
        if t[0] == 'bool' and op in '&|^':
            x, y = self.truth(a), self.truth(b)
            return and_(x, y) if op == '&' else or_(x, y) if op == '|' else not_(iff(x, y))
        if t[0] != 'int':
            raise Limit('arithmetic at type %s' % (t,))
        w, s = t[1], t[2]
        if op in ('+', '-', '*'):
            r = add(a, b) if op == '+' else sub(a, b) if op == '-' else mul(a, b)
            if s:
                if not fits(r, w, s):
                    self.ob(st, 'overflow', and_(le(I(-(1 << (w - 1))), r), le(r, I((1 << (w - 1)) - 1))), 'signed %s does not overflow' % op)
                    if self.spec_mode:
                        return wrap(r, w, s)
                    return self.narrow(st, r, w, s)
                return r
            return self.narrow(st, r, w, s)
        if op in ('/', '%'):
            self.ob(st, 'div0', ne(b, I(0)), 'divisor is not zero')
            r = tdiv(a, b) if op == '/' else tmod(a, b)
            return wrap(r, w, s) if not fits(r, w, s) and r.rng[0] != -INF else r
        if op == '<<':
            self.ob(st, 'shift', and_(le(I(0), b), lt(b, I(w))), 'shift count in range')
            r = shl(a, b)
            if s and not fits(r, w, s):
                self.ob(st, 'overflow', and_(le(I(0), a), lt(r, I(1 << w))), 'left shift does not overflow')
            return wrap(r, w, s)
        if op == '>>':
            self.ob(st, 'shift', and_(le(I(0), b), lt(b, I(w))), 'shift count in range')
            return shr(a, b)
        if op == '&':
            return self.narrow(st, band(a, b), w, s)
        if op == '|':
            return self.narrow(st, bor(a, b), w, s)
        if op == '^':
            return self.narrow(st, bxor(a, b), w, s)
        raise Limit('operator ' + op)

    def narrow(self, st, r, w, s):
        """machine result: the mathematical value where the path condition shows it fits"""
        if fits(r, w, s):
            return r
        u = wrap(r, w, s)
        if u.op == 'wrap' and st.pc is not TRUE:
            # bounds in the path condition may show that nothing wraps
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            g = and_(le(I(lo), r), le(r, I(hi)))
            if or_(not_(st.pc), g) is TRUE or (len(poly(r)) <= 4 and self.interval_ok(st, r, lo, hi)):
                return r
        return u

    def interval_ok(self, st, r, lo, hi):
        """cheap bound propagation: x <= c facts among the conjuncts of the path condition"""
        p = poly(r)
        best = {}
        for c in conj(st.pc):
            if c.op == 'le0':
                q = poly(c.a[0])
                ms = [m for m in q if m != ()]
                if len(ms) == 1:
                    k, cst = q[ms[0]], q.get((), 0)
                    l, h = best.get(ms[0], (-INF, INF))
                    if k > 0:
                        h = min(h, (-cst) // k)
                    else:
                        l = max(l, -((-cst) // -k) if False else -(-cst // k) if False else (cst + (-k) - 1) // (-k))
                    best[ms[0]] = (l, h)
                elif len(ms) == 2 and q.get((), 0) is not None:
                    # a - b + c <= 0 with bounds on b
                    for m in ms:
                        o = ms[1] if m is ms[0] else ms[0]
                        if q[m] == 1 and q[o] == -1 and len(o) == 1:
                            l, h = best.get(m, (-INF, INF))
                            best[m] = (l, min(h, o[0].rng[1] - q.get((), 0)))
            elif c.op == 'eq0':
                q = poly(c.a[0])
                ms = [m for m in q if m != ()]
                if len(ms) == 1 and q.get((), 0) % q[ms[0]] == 0:
                    x = -q.get((), 0) // q[ms[0]]
                    best[ms[0]] = (x, x)
        l = h = p.get((), 0)
        for m, c in p.items():
            if m == ():
                continue
            a, b = mk('poly', ((m, 1), ((), 0)), 'I', None).rng if False else mono_rng(m)
            x, y = best.get(m, (-INF, INF))
            a, b = max(a, x), min(b, y)
            if c > 0:
                l, h = l + c * a if a != -INF else -INF, h + c * b if b != INF else INF
            else:
                l, h = l + c * b if b != INF else -INF, h + c * a if a != -INF else INF
        return l >= lo and h <= hi

    def int_cast(self, v, t):
        if t[0] == 'int':
            if v.sort == 'B':
                return ite(v, I(1), I(0))
            return wrap(v, t[1], t[2])
        if t[0] == 'bool':
            return self.truth(v)
        return v

    def l_bin(self, st, e):
        if e['op'] == '=':
            # evaluation order: right, then left
            if e['b'].get('lv') or e['b'].get('xv'):
                v = self.ev(st, e['b'])
            else:
                v = self.ev(st, e['b'])
            lv = self.lv(st, e['a'])
            if st.pc is FALSE:
                return lv
            self.write(st, lv, self.T.adapt(self, st, v, e['a']['t']))
            return lv
        if e['op'] == ',':
            self.ev_discard(st, e['a'])
            return self.lv(st, e['b'])
        raise Limit('lvalue binary ' + e['op'])

    def l_assignop(self, st, e):
        b = self.ev(st, e['b'])
        lv = self.lv(st, e['a'])
        if st.pc is FALSE:
            return lv
        a = self.read(st, lv)
        if isinstance(a, Ptr):
            self.write(st, lv, self.binop(st, e['op'], a, b, e['a']['t'], None, None))
            return lv
        ct = e['ct']
        if isinstance(a, Term):
            a2 = self.convert(st, a, e['a']['t'], e['clt'])
            r = self.arith(st, e['op'], a2, b, ct)
            self.write(st, lv, self.convert(st, r, ct, e['a']['t']))
        else:
            raise Limit('compound assignment on %s' % type(a).__name__)
        return lv

    def convert(self, st, v, f, t):
        """arithmetic conversion from type f to type t"""
        if t[0] == 'bool':
            return self.truth(v)
        if t[0] == 'int':
            if v.sort == 'D':
                return self.f2i(st, v, t)
            return self.int_cast(v, t)
        if t[0] == 'flt':
            if v.sort == 'B':
                v = ite(v, I(1), I(0))
            if v.sort == 'I':
                v = i2d(v)
                return v if t[1] == 64 else dop('f32', v)
            if t[1] == 32 and (f[0] != 'flt' or f[1] != 32):
                return dop('f32', v)
        return v

    def f2i(self, st, v, t):
        r = d2i(v)
        w, s = t[1], t[2]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if not fits(r, w, s):
            ok = and_(dcmp('lt', D(float(lo - 1)) if w <= 32 else D(float(lo)), v) if w <= 32 else dcmp('le', D(float(lo)), v),
                      dcmp('lt', v, D(float(hi + 1))))
            self.ob(st, 'fptoint', ok, 'floating-point value fits the integer type')
        return wrap(r, w, s) if r.rng[0] == -INF else self.int_cast(r, t)

    def e_cond(self, st, e):
        c = self.cond(st, e['c'])
        if c is TRUE:
            return self.ev(st, e['a'])
        if c is FALSE:
            return self.ev(st, e['b'])
        box = {}
        def fa(x): box['a'] = self.ev(x, e['a'])
        def fb(x): box['b'] = self.ev(x, e['b'])
        self.branch(st, c, fa, fb)
        if 'a' not in box or box['a'] is None:
            return box.get('b')
        if 'b' not in box or box['b'] is None:
            return box['a']
        return vite(c, box['a'], box['b'])

    def l_cond(self, st, e):
        c = self.cond(st, e['c'])
        box = {}
        def fa(x): box['a'] = self.lv(x, e['a'])
        def fb(x): box['b'] = self.lv(x, e['b'])
        self.branch(st, c, fa, fb)
        if 'a' not in box:
            return box['b']
        if 'b' not in box:
            return box['a']
        return lv_ite(c, box['a'], box['b'])

    def e_temp(self, st, e):
        return self.ev(st, e['e'])

    def l_temp(self, st, e):
        return self.cell(st, self.ev(st, e['e']), '_tmp')

    def l_cast(self, st, e):
        ck = e['ck']
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast'):
            lv = self.lv(st, e['e'])
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived') and lv[0] == 'obj' and not self.T.is_std(e['t']):
                return ('obj', lv[1], e['t'][2])
            return lv
        raise Limit('lvalue cast ' + ck)

    def e_cast(self, st, e):
        ck, t = e['ck'], e['t']
        x = e['e']
        if ck == 'ToVoid':
            self.ev_discard(st, x)
            return None
        if ck == 'ArrayToPointerDecay':
            if x['k'] == 'str':
                return Str(bytes.fromhex(x['hex']))
            return Ptr(('idx', self.lv(st, x), I(0)))
        if ck == 'FunctionToPointerDecay':
            return self.ev(st, x) if x['k'] != 'fnref' else Fn(x)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return I(0)
        v = self.ev(st, x)
        if st.pc is FALSE:
            return self.T.sym(self, t, '%dead', ())
        if ck in ('LValueToRValue', 'NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'AtomicToNonAtomic'):
            if isinstance(v, Rec) and t[0] == 'rec' and v.cls != t[2] and not self.T.is_std(t):
                return self.T.slice(v, t[2])
            return v
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            if isinstance(v, Rec) and t[0] == 'rec' and not self.T.is_std(t):
                return self.T.slice(v, t[2])
            return v
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'FloatingToBoolean'):
            return self.convert(st, v, x['t'], t)
        if ck == 'PointerToBoolean':
            return self.truth(v)
        if ck == 'BitCast':
            if isinstance(v, Ptr):
                pt = x['t'][1]
                if t[1][0] == 'int' and t[1][1] == 8 or t[1][0] == 'void':
                    if v.lv[0] == 'idx' and pt[0] == 'int' and pt[1] == 8 and pt[2]:
                        return v
                    if pt[0] in ('int', 'flt', 'bool'):
                        return BytesPtr(v.lv, pt)
                    if pt[0] == 'arr' and pt[1][0] == 'int' and pt[1][1] == 8:
                        return Ptr(('idx', v.lv, I(0)))
                    return BytesPtr(v.lv, pt)
                return v
            if isinstance(v, (Term, Str, BytesPtr)):
                return v
        if ck == 'Dynamic':
            return self.T.dyncast(self, st, v, t)
        raise Limit('cast ' + ck)

    def e_initlist(self, st, e):
        return self.T.initlist(self, st, e)

    def e_arrcopy(self, st, e):
        return self.ev(st, e['e'])

    def e_throw(self, st, e):
        self.throw(st)
        return None

    def e_lambda(self, st, e):
        caps = {}
        this = None
        for c in e['caps']:
            if 'this' in c:
                this = self.frames[-1].this
            else:
                lv = self.frames[-1].env[c['id']]
                caps[c['id']] = lv if c.get('byref') else self.cell(st, self.read(st, lv), '_cap')
        return Lam(e, caps, this)

    def e_new(self, st, e):
        at = e['at']
        v = self.ev(st, e['init']) if e.get('init') else self.T.default(self, st, at)
        if st.pc is FALSE:
            return I(0)
        if self.T.is_stream(at):
            r = self.alloc(st, at[2])
            self.heap_write(st, '%stream', r, v)
            return r
        if at[0] == 'rec' and isinstance(v, Rec):
            return self.new_object(st, at[2], v)
        raise Limit('new of %s' % (at,))

    def e_delete(self, st, e):
        self.ev(st, e['e'])
        return None

    def e_unsupported(self, st, e):
        raise Limit('unsupported construct: ' + str(e.get('what')))
    l_unsupported = e_unsupported
    s_unsupported = e_unsupported

    # ------------------------------------------------------------ calls
    def bind_arg(self, st, a, pt):
        """argument for a parameter of type pt: lvalue for references, value otherwise"""
        if pt[0] == 'ref':
            return self.lv(st, a)
        v = self.ev(st, a)
        if st.pc is not FALSE and v is not None:
            v = self.T.adapt(self, st, v, pt)
        return v

    def e_call(self, st, e):
        r = self.call(st, e)
        if e['ret'][0] == 'ref' if 'ret' in e else False:
            return self.read(st, r) if isinstance(r, tuple) and st.pc is not FALSE else r
        return r

    def l_call(self, st, e):
        r = self.call(st, e)
        if isinstance(r, tuple):
            return r
        if st.pc is FALSE:
            return ('cell', '%dead')
        if r is None:
            raise Limit('no lvalue from %s' % e.get('q'))
        return self.cell(st, r, '_r')

    def call(self, st, e):
        fid, q = e.get('f'), e.get('q') or ''
        std = self.T.std_call(self, st, e)
        if std is not NotImplemented:
            return std
        this = None
        if e.get('obj') is not None and e['obj']['t'][0] == 'rec' and '(lambda)' in (e['obj']['t'][2] or e['obj']['t'][1] or '') or 'operator()' in (fid or '') and e.get('obj') is not None:
            lam = self.ev(st, e['obj'])
            if isinstance(lam, Lam):
                args = [self.bind_arg(st, a, p['t']) for a, p in zip(e['args'], lam.node['params'])]
                return self.call_lambda(st, lam, args) if st.pc is not FALSE else None
        if e.get('obj') is not None:
            if e.get('arrow'):
                p = self.ev(st, e['obj'])
                t = e['obj']['t']
                this = self.deref(st, p, t[1] if t[0] == 'ptr' else None) if st.pc is not FALSE else None
            else:
                this = self.lv(st, e['obj'])
        args = []
        for i, a in enumerate(e['args']):
            pt = e['pt'][i] if i < len(e['pt']) else a['t']
            args.append(self.bind_arg(st, a, pt))
            if st.pc is FALSE:
                return None
        if st.pc is FALSE:
            return None
        if e.get('virtual') and not e.get('qualified'):
            return self.virtual_call(st, e, this, args)
        if this is not None and this[0] == 'obj' and e.get('cls') and e['cls'][0] == 'rec' and this[2] != e['cls'][2]:
            this = ('obj', this[1], e['cls'][2])
        return self.invoke(st, fid, this, args, e)

    def virtual_call(self, st, e, this, args):
        fid = e['f']
        if this[0] == 'obj':
            cands = self.T.overriders(e['cls'][2], fid)
            dyn = self.heap_read(st, '%dyn', this[1])
            by = {}
            for cls, f in cands:
                by.setdefault(f, []).append(cls)
            res = []
            first = True
            if len(by) == 1:
                f = list(by)[0]
                return self.invoke(st, f, ('obj', this[1], self.T.owner(f) or this[2]), args, e)
            out = {}
            def go(x, items):
                f, clss = items[0]
                c = or_(*[eq(dyn, I(self.T.cid(z))) for z in clss])
                if len(items) == 1:
                    out[f] = self.invoke(x, f, ('obj', this[1], self.T.owner(f) or this[2]), args, e)
                    return out[f]
                box = []
                def fa(y): box.append(self.invoke(y, f, ('obj', this[1], self.T.owner(f) or this[2]), args, e))
                def fb(y): box.append(go(y, items[1:]))
                if c is TRUE:
                    return self.invoke(x, f, ('obj', this[1], self.T.owner(f) or this[2]), args, e)
                if c is FALSE:
                    return go(x, items[1:])
                self.branch(x, c, fa, fb)
                if len(box) == 1 or box[1] is None:
                    return box[0]
                if isinstance(box[0], tuple):
                    return lv_ite(c, box[0], box[1])
                return vite(c, box[0], box[1]) if box[0] is not None else box[1]
            return go(st, sorted(by.items()))
        # by-value object: its dynamic class is the class of the stored record
        v = self.read(st, this)
        cls = v.cls if isinstance(v, Rec) else e['cls'][2]
        hook = self.hooks.get('dyncls')
        f = self.T.final_overrider(cls, fid)
        return self.invoke(st, f, this, args, e)

    def invoke(self, st, fid, this, args, e=None):
        if fid == self.tail_of:
            # the call of a function to itself ends the path: what it computes is determined by the state it is made in
            if e is None or e is not self.tail_e:
                raise Limit('recursion')
            self.tails.append(Ev(st.copy(), [self.read(st, a) if isinstance(a, tuple) else a for a in args]))
            st.pc = FALSE
            return None
        c = self.contracts.get(fid)
        if c is not None and fid not in self.inline_only:
            return self.use_contract(st, c, fid, this, args)
        fun = self.prog.funs.get(fid)
        if fun is None or fun.get('body') is None:
            if e is not None:
                r = self.T.implicit_call(self, st, fid, this, args, e)
                if r is not NotImplemented:
                    return r
            raise Limit('no body for %s' % fid)
        return self.run_fun(st, fun, this, args)

    def use_contract(self, st, c, fid, this, args):
        self.used_contracts.add(fid)
        from .contract import apply_contract
        return apply_contract(self, st, c, self.prog.funs.get(fid), this, args)

    def run_fun(self, st, fun, this, args):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Limit('call depth (recursion without a contract): ' + fun['fun'])
        self.inlined.add(fun['fun'])
        fr = Frame(fun, this)
        w = self.where
        self.frames.append(fr)
        try:
            for p, a in zip(fun['params'], args):
                if p['t'][0] == 'ref':
                    fr.env[p['id']] = a
                else:
                    fr.env[p['id']] = self.cell(st, a, '_' + p['n'])
                    self.ctype[fr.env[p['id']][1]] = p['t']
            if fun.get('ctorfn'):
                self.ctor_inits(st, fun, this)
            if st.pc is not FALSE and fun.get('body'):
                self.stmt(st, fun['body'])
            evs = list(fr.rets)
            if st.pc is not FALSE:
                if fun['ret'][0] not in ('void',) and not fun.get('ctorfn') and not fun.get('dtorfn'):
                    # falling off the end of a value-returning function
                    self.ob(st, 'noreturn', FALSE, 'function returns a value on every path')
                    if not evs:
                        raise Limit('no return value')
                else:
                    evs.append(Ev(st.copy(), None))
            if not evs:
                st.pc = FALSE
                return None
            s, v = merge_events(evs)
            st.become(s.copy())
            return v
        finally:
            self.frames.pop()
            self.depth -= 1
            self.where = w

    # ------------------------------------------------------------ construction
    def ctor_inits(self, st, fun, this):
        cls = self.T.owner(fun['fun'])
        inited = set()
        for i in fun.get('inits', []):
            if st.pc is FALSE:
                return
            if i.get('deleg'):
                self.construct_into(st, this, i['e'], cls)
            elif i.get('base'):
                self.construct_into(st, this, i['e'], i['base'][2] if isinstance(i['base'], list) else i['base'])
            else:
                key = self.T.fkey(cls, i['field'])
                ft = self.T.ftype(key)
                lv = ('fld', this, key)
                e = i.get('e')
                if ft[0] == 'ref':
                    x = self.lv(st, e)
                    self.write(st, lv, x[1] if x[0] == 'obj' or (x[0] == 'hf' and x[2] == '%stream') else Ptr(x))
                    continue
                if e is None:
                    v = self.T.default(self, st, ft)
                else:
                    v = self.ev(st, e)
                    if st.pc is FALSE:
                        return
                    v = self.T.adapt(self, st, v, ft)
                self.write(st, lv, v)

    def construct_into(self, st, this, e, cls):
        """run a constructor expression on the (sub)object at this"""
        while e['k'] in ('definit', 'temp', 'stdinit'):
            e = e['e']
        if e['k'] != 'ctor':
            v = self.ev(st, e)
            if isinstance(v, Rec):
                for f, t in self.T.fields(cls):
                    self.write(st, ('fld', this, f), v.f[f])
                return
            raise Limit('base initialiser')
        fun = self.prog.funs.get(e['f'])
        if fun is None or (fun.get('body') is None and not fun.get('inits')):
            v = self.ev(st, e)
            for f, t in self.T.fields(cls):
                self.write(st, ('fld', this, f), v.f[f])
            return
        args = [self.bind_arg(st, a, e['pt'][i]) for i, a in enumerate(e['args'])]
        if st.pc is FALSE:
            return
        if e.get('zeroinit'):
            pass
        sub = this
        c = self.contracts.get(e['f'])
        if c is not None and e['f'] not in self.inline_only:
            tmp = self.cell(st, self.T.raw(self, cls))
            self.use_contract(st, c, e['f'], tmp, args)
            if st.pc is FALSE:
                return
            v = self.read(st, tmp)
            for f, t in self.T.fields(cls):
                self.write(st, ('fld', this, f), v.f[f])
            return
        self.run_fun(st, fun, sub, args)

    def construct(self, st, fid, cls, args):
        """object of class cls built by constructor fid: returns the record"""
        fun = self.prog.funs.get(fid)
        tmp = self.cell(st, self.T.raw(self, cls), '_obj')
        c = self.contracts.get(fid)
        if c is not None and fid not in self.inline_only:
            self.use_contract(st, c, fid, tmp, args)
        elif fun is not None:
            self.run_fun(st, fun, tmp, args)
        else:
            raise Limit('no constructor body for %s' % fid)
        return self.read(st, tmp) if st.pc is not FALSE else self.T.raw(self, cls)

    def e_ctor(self, st, e):
        r = self.T.std_ctor(self, st, e)
        if r is not NotImplemented:
            return r
        cls = e['t'][2]
        fid = e['f']
        fun = self.prog.funs.get(fid)
        has = fun is not None and (fun.get('body') is not None)
        if not has and (e.get('copy') or e.get('move')):
            src = self.lv(st, e['args'][0])
            if st.pc is FALSE:
                return self.T.raw(self, cls)
            return self.copy_value(st, e['t'], src)
        if not has:
            if not e['args']:
                return self.T.default_fields(self, st, cls, e)
            raise Limit('constructor %s' % fid)
        args = [self.bind_arg(st, a, e['pt'][i]) for i, a in enumerate(e['args'])]
        if st.pc is FALSE:
            return self.T.raw(self, cls)
        return self.construct(st, fid, cls, args)

    def copy_value(self, st, t, lv):
        """copy-construct a value of type t from lv"""
        if t[0] == 'rec' and not self.T.is_std(t):
            fid = self.T.user_copy(t[2])
            if fid is not None:
                if lv[0] == 'obj':
                    lv = ('obj', lv[1], t[2])
                return self.construct(st, fid, t[2], [lv])
            v = self.read(st, lv)
            if isinstance(v, Rec) and v.cls != t[2]:
                v = self.T.slice(v, t[2])
            return v
        return self.read(st, lv)

    def e_icall(self, st, e):
        fn = self.ev(st, e['fn'])
        raise Limit('indirect call')

    def call_lambda(self, st, lam, args):
        """args: lvalues for reference parameters, values otherwise"""
        n = lam.node
        if isinstance(lam, Fn):
            return self.invoke(st, lam.f['f'], None, args)
        if 'body' not in n:
            raise Limit('lambda with a templated call operator')
        fun = {'fun': n['f'], 'ret': n['ret'], 'params': n['params'], 'body': n['body']}
        fr = Frame(fun, lam.this)
        fr.env.update(lam.caps)
        self.frames.append(fr)
        try:
            for p, a in zip(n['params'], args):
                fr.env[p['id']] = a if p['t'][0] == 'ref' else self.cell(st, a, '_' + p['n'])
            self.stmt(st, n['body'])
            evs = list(fr.rets)
            if st.pc is not FALSE and n['ret'][0] == 'void':
                evs.append(Ev(st.copy(), None))
            if not evs:
                st.pc = FALSE
                return None
            s, v = merge_events(evs)
            st.become(s.copy())
            return v
        finally:
            self.frames.pop()

def mono_rng(m):
    l, h = 1, 1
    for x in m:
        a, b = x.rng
        ps = [_mm(l, a), _mm(l, b), _mm(h, a), _mm(h, b)]
        l, h = min(ps), max(ps)
    return l, h

def _mm(a, b):
    return 0 if a == 0 or b == 0 else a * b

def relevant(facts, seeds, depth=6):
    """facts sharing symbols (uninterpreted functions or variables) with the seeds, transitively"""
    syms = {}
    def of(t):
        r = _symmemo.get(t)
        if r is None:
            r = set()
            st, seen = [t], set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'uf':
                    r.add((x.a[0],))
                elif x.op == 'var':
                    r.add(x)
                st.extend(kids(x))
            r = frozenset(r)
            _symmemo[t] = r
        return r
    cur = set()
    for s in seeds:
        cur |= of(s)
    todo = list(facts)
    out = []
    for _ in range(depth):
        nxt, add_ = [], False
        new = set()
        for f in todo:
            if of(f) & cur:
                out.append(f)
                new |= of(f)
                add_ = True
            else:
                nxt.append(f)
        todo = nxt
        if not add_:
            break
        cur |= new
    return out
_symmemo = {}

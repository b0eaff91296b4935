"""Contracts: every function under contract has preconditions and an observational specification (what it returns,
throws and changes, as a function of the pre-state).  verify() discharges: body == specification for every pre-state
that meets the preconditions, plus the safety obligations of the body.  Callers use the specification only."""
from .term import *
from .values import *
from .types import norm, REFMAX, STREAMS
from .exec import Exec, State, Ev, Ob, Frame, merge_events, relevant, SEQID, conj, ite_leaves, merge_states, split_pc, DYN
from . import smt
import time

FRESH_LO = 1 << 160
# fields that are observable only when another field says so
OBS = {'copc::las::Point::rgb_': 'copc::las::Point::has_rgb_', 'copc::las::Point::nir_': 'copc::las::Point::has_nir_'}

class Contract:
    def __init__(self, fid, spec, props=(), pre=None, opts=None):
        self.fid, self.spec, self.props, self.pre = fid, spec, tuple(props), pre
        self.opts = opts or {}

class Ctx:
    """what a specification sees"""
    def __init__(self, ex, st, fun, this, args, cls=None):
        self.ex, self.st, self.fun, self.this, self.args = ex, st, fun, this, args
        self.T = ex.T
        self.cls = cls or (this[2] if this is not None and this[0] == 'obj' else None)
        self.retval = None
        self.names = {p['n']: i for i, p in enumerate(fun['params'])} if fun else {}
    # parameters
    def lv(self, p):
        i = self.names[p] if isinstance(p, str) else p
        a = self.args[i]
        if isinstance(a, tuple):
            return a
        return self.ex.cell(self.st, a)
    def a(self, p, f=None):
        i = self.names[p] if isinstance(p, str) else p
        a = self.args[i]
        v = self.ex.read(self.st, a) if isinstance(a, tuple) else a
        return v if f is None else self.f(v, f)
    # fields
    def key(self, cls, name):
        if '::' in name or name.startswith('%'):
            return name
        for k, t in reversed(self.T.fields(cls)):
            if k.endswith('::' + name):
                return k
        raise Limit('no field %s in %s' % (name, cls))
    def f(self, rec, name):
        """field of a record value"""
        if isinstance(rec, VIte):
            return vite(rec.c, self.f(rec.a, name), self.f(rec.b, name))
        if name in rec.f:
            return rec.f[name]
        for k in reversed(list(rec.f)):
            if k.endswith('::' + name):
                return rec.f[k]
        raise Limit('no field %s in %s' % (name, rec.cls))
    def clsof(self, lv):
        if lv[0] == 'obj':
            return lv[2]
        v = self.ex.read(self.st, lv)
        return v.cls
    def get(self, name, lv=None):
        lv = lv if lv is not None else self.this
        for n in name.split('.'):
            lv = ('fld', lv, self.key(self.clsof(lv), n))
        return self.ex.read(self.st, lv)
    def flv(self, name, lv=None):
        lv = lv if lv is not None else self.this
        for n in name.split('.'):
            lv = ('fld', lv, self.key(self.clsof(lv), n))
        return lv
    def set(self, name, v, lv=None):
        self.ex.write(self.st, self.flv(name, lv), v)
    def obj(self, ref, cls):
        return ('obj', ref, cls)
    def read(self, lv):
        return self.ex.read(self.st, lv)
    def write(self, lv, v):
        self.ex.write(self.st, lv, v)
    # maps (and sets)
    def map_has(self, m, key):
        return self.ex.map_has(self.st, m, key)
    def map_get(self, m, key):
        return self.ex.map_get(self.st, m, key)
    def map_set(self, name, key, val, lv=None, when=TRUE):
        self.set(name, self.get(name, lv).up('set', when, key, val), lv)
    def map_del(self, name, key, lv=None, when=TRUE):
        self.set(name, self.get(name, lv).up('del', when, key), lv)
    def listing(self, m):
        """members in iteration order: .n, .key(i)"""
        return self.T.enumerate(self.ex, self.st, m)
    def map_size(self, m):
        return self.T.std.map_len(self.ex, self.st, m)
    def empty_map(self, cls, name):
        t = self.T.ftype(self.key(cls, name))
        return self.T.default(self.ex, self.st, t)
    # control
    def throws(self, cond=TRUE):
        self.ex.throw(self.st, cond)
        return self.st.pc is FALSE
    def ret(self, v):
        self.retval = v
    def again(self, *args):
        """the function starts over with these arguments"""
        self.ex.tails.append(Ev(self.st.copy(), list(args)))
        self.st.pc = FALSE
    def when(self, c, fa, fb=None):
        """fa(), fb() run on self.st under c / not c"""
        st = self.st
        def run(f):
            def g(x):
                self.st = x
                if f is not None:
                    f()
            return g
        try:
            self.ex.branch(st, c, run(fa), run(fb))
        finally:
            self.st = st
    def new(self, cls, fields):
        """a new heap object with all fields given by short name"""
        full = {}
        for k, v in fields.items():
            full[self.key(cls, k)] = v
        miss = [k for k, t in self.T.fields(cls) if k not in full]
        if miss:
            raise Limit('spec object lacks %s' % miss)
        return self.ex.new_object(self.st, cls, Rec(cls, full))
    def each(self, n, f, throws=False, skip=()):
        """f(k) for every 0 <= k < n on self.st, with its effects on (distinct) heap objects; returns the results in order.
        throws: a call throws when one f(k) does.  Effects on the heap fields in skip are left to the caller"""
        ex = self.ex
        k = var('each!%s%d' % (ex.tag, ex.bump()), 'I', 0, None)
        x = self.st.copy()
        x.pc = and_(x.pc, lt(k, n))
        st, self.st = self.st, x
        pc = x.pc
        ex.loopvars.append(k)
        old, ex.throws = ex.throws, []
        try:
            v = f(k)
            thrown = ex.throws
        finally:
            ex.loopvars.pop()
            self.st, ex.throws = st, old
        if thrown and not throws:
            raise Limit('a specification throws inside each')
        if thrown:
            j = fresh('j', 'I', 0, None)
            have = conj(pc)
            t = or_(*[and_(*[a for a in conj(e.st.pc) if a not in have]) for e in thrown])
            if self.throws(ex.exists(n, j, subst(t, {k: j}))[0]):
                return None
        for nm in st.cells:
            if x.cells.get(nm) is not st.cells[nm]:
                raise Limit('each changes a local')
        for key, e in x.heap.items():
            if key in skip:
                continue
            s = st.heap.get(key, ())
            new = []
            for u in e[len(s):]:
                if u[0] not in ('pt', 'rg') or k not in atoms(u[2] if u[0] == 'pt' else u[4]):
                    raise Limit('each writes a single object')
                if u[1] is TRUE and u[0] == 'pt':
                    new = [w for w in new if w[2] is not u[2]]
                new.append(u)
            for u in new:
                j = fresh('j', 'I', 0, None)
                m = {k: j}
                if u[0] == 'pt':
                    w = ('rg', subst(u[1], m), j, n, subst(u[2], m), vsubst(u[3], m))
                else:
                    w = ('rg2', subst(u[1], m), u[2], subst(u[3], m), subst(u[4], m), vsubst(u[5], m), j, n)
                st.heap[key] = st.heap.get(key, ()) + (w,)
        if v is None:
            return None
        j = fresh('j', 'I', 0, None)
        if isinstance(v, Seq):
            return Seq([Flat(n, j, vsubst(v, {k: j}))])
        b = vsubst(v, {k: j}) if not isinstance(v, Term) else subst(v, {k: j})
        return Seq([Tab(n, j, b)])
    def loop(self, cells, cond, step):
        """a loop without a closed form over the given locals (see lockstep.py)"""
        from .lockstep import spec_loop
        spec_loop(self, cells, cond, step)
    def gather(self, name, cls, n, f):
        """for 0 <= k < n in order: when f(k)[0], insert key f(k)[2] (value f(k)[3]) into the map of object f(k)[1]"""
        k = fresh('in', 'I', 0, None)
        g, ref, key, val = f(k)
        hk = self.key(cls, name)
        self.st.heap[hk] = self.st.heap.get(hk, ()) + (('in', g, k, n, ref, key, val),)
    def family(self, seq):
        """the objects of this sequence are pairwise distinct"""
        for p in seq.parts:
            if isinstance(p, Tab) and isinstance(p.body, Term) and p.body.op == 'uf':
                self.T.injective[p.body.a[0]] = True
    def zero(self, cls):
        """a local with every field zero or empty, to be filled with set"""
        return self.ex.cell(self.st, self.T.zero(self.ex, ['rec', cls, cls, []]), 'spec')
    def rec(self, cls, **fields):
        full = {self.key(cls, k): v for k, v in fields.items()}
        miss = [k for k, t in self.T.fields(cls) if k not in full]
        if miss:
            raise Limit('spec record lacks %s' % miss)
        return Rec(cls, full)
    def call(self, fid, this, args):
        """apply another function's specification; returns its result"""
        con = self.ex.contracts.get(fid)
        if con is None:
            raise Limit('no contract for ' + fid)
        return run_spec(self.ex, self.st, con, self.ex.prog.funs[fid], this, args)
    def havoc(self, t):
        """an unspecified value"""
        return self.T.sym(self.ex, t, 'havoc!%s%d' % (self.ex.tag, self.ex.bump()), tuple(self.ex.loopvars))
    def fid(self, name):
        from .spec import short
        d = self.ex.prog.__dict__.get('_short')
        if d is None:
            d = self.ex.prog._short = {}
            for f in self.ex.prog.funs:
                d.setdefault(short(f), f)
        if name not in d:
            raise Limit('no function ' + name)
        return d[name]
    def inline(self, fid, this, args):
        return self.ex.invoke(self.st, fid, this, args)

# Opaque calls: known only as a function of the state before the call.  'opaque' lists the heap fields the call may change;
# that its effects are confined to them is checked where its body is verified.
def snapshot(st):
    out = {}
    for k, us in st.heap.items():
        if k in UNSEEN:
            continue
        us = tuple(u for u in us if u[0] == 'hv' or not big(u[2] if u[0] == 'pt' else u[4]))
        if us:
            out[k] = us
    return out
UNSEEN = ('%dyn', '%cin', '%cdone', '%cfmt', '%ceb', '%cstream', '%cdata', '%cstart', '%ccount', '%reader', '%rhdr')
def same_state(ex, a, b, pc):
    """are two states of the heap equal for all existing objects?"""
    (sa, ta), (sb, tb) = a, b
    if ta != tb or sa.cells.keys() is None:
        return False
    cm = Cmp(ex, sa, sb, pc)
    cm.heap()
    for o in cm.out:
        r = prove(ex, o, 5.0, pool=skolems([o.goal, o.pc]))[0]
        if r == 'unknown':
            raise Limit('a call in a state that may or may not be another one')
        if r != 'proved':
            return False
    return True
def may_change(ex, k):
    """a heap field, or a heap field of the objects of one class"""
    return (k, TRUE) if isinstance(k, str) else (k[0], or_(*[eq(DYN, I(ex.T.cid(s))) for s in ex.T.subclasses(k[1])]))
def frame_check(ex, st0, st1, k, g, what):
    """only objects that g allows are changed"""
    r = fresh('sk_obj', 'I', 1, REFMAX)
    h = not_(subst(g, {DYN: ex.heap_read(st0, '%dyn', r)}))
    cm = Cmp(ex, st1, st0, and_(st1.pc, h))
    cm.cmp(ex.heap_read(st1, k, r), ex.heap_read(st0, k, r), ex.T.ftype(k), what)
    return cm.out
def opaque_call(ex, st, con, fun, this, args):
    if ex.loopvars:
        raise Limit('opaque call in a loop')
    fid = con.fid
    terms = []
    for p, a in zip(fun['params'], args):
        v = ex.read(st, a) if isinstance(a, tuple) else a
        terms += [ex.seqid(v)] if isinstance(v, Seq) else tvals(v)
    tkey = vkey(ex.read(st, this)) if this is not None else None
    snap = snapshot(st)
    n = None
    for i, (f, t0, s0, st0) in enumerate(ex.opq):
        if f == fid and t0 == tkey and s0 == snap:
            n = i
    if n is None:
        for i, (f, t0, s0, st0) in enumerate(ex.opq):
            if f == fid and n is None and same_state(ex, (st0, t0), (st, tkey), st.pc):
                n = i
    if n is None:
        n = len(ex.opq)
        ex.opq.append((fid, tkey, snap, st.copy()))
    name, targs = 'call!%d!%s' % (n, fun['q'].split('::')[-1]), tuple(terms)
    ex.throw(st, uf(name + '.throws', targs, 'B'))
    if st.pc is FALSE:
        return None
    c = Ctx(ex, st, fun, this, args, owner_of(ex, fun))
    for k in con.opts['opaque'](c):
        k, g = may_change(ex, k)
        st.heap[k] = st.heap.get(k, ()) + (('hv', g, name, targs),)
    if con.opts.get('stream'):
        from .lockstep import stream_havoc
        stream_havoc(ex, st, con.opts['stream'](c), name, targs)
    for p, a in zip(fun['params'], args):
        if p['n'] in con.opts.get('outs', ()):
            ex.write(st, a, ex.T.sym(ex, p['t'][1], name + '.' + p['n'], targs))
    return ex.T.sym(ex, fun['ret'], name + '.ret', targs) if fun['ret'][0] != 'void' else None

def owner_of(ex, fun):
    return ex.T.owner(fun['fun']) if fun and fun.get('cls') else None

def run_spec(ex, st, con, fun, this, args):
    c = Ctx(ex, st, fun, this, args, owner_of(ex, fun))
    if con.opts.get('opaque'):
        return opaque_call(ex, st, con, fun, this, args)
    ex.spec_mode += 1
    try:
        con.spec(c)
    finally:
        ex.spec_mode -= 1
    return c.retval

def apply_contract(ex, st, con, fun, this, args):
    if con.pre is not None and not ex.dry:      # dry runs only look for closed forms
        c = Ctx(ex, st, fun, this, args, owner_of(ex, fun))
        for name, t in con.pre(c):
            if t is not TRUE:
                ex.ob(st, 'pre', t, 'precondition of %s: %s' % (con.fid.split('(')[0].replace('copc::', ''), name))
    return run_spec(ex, st, con, fun, this, args)

# ---------------------------------------------------------------------------------------------- comparison
class Cmp:
    def __init__(self, ex, sb, ss, pc):
        self.ex, self.sb, self.ss, self.pc = ex, sb, ss, pc
        self.T = ex.T
        self.out = []
        self.seen = set()
    def goal(self, what, g, hyp=TRUE):
        if g is TRUE:
            self.ex.nsyn = getattr(self.ex, 'nsyn', 0) + 1
            return
        self.out.append(Ob('post: ' + what, 'post', and_(self.pc, hyp), g, what, len(self.ex.facts), len(self.ex.univs)))
    def isref(self, t):
        if t is None:
            return False
        if t[0] in ('ptr', 'ref'):
            return True
        return t[0] == 'rec' and norm(t[1]) in ('std::shared_ptr', 'std::unique_ptr')
    def pointee(self, t):
        if t[0] in ('ptr', 'ref'):
            return t[1]
        return t[3][0]
    def cmp(self, b, s, t, what, hyp=TRUE):
        if hyp is FALSE:
            return
        if b is s:
            self.goal(what, TRUE)
            return
        if isinstance(b, Term) and isinstance(s, Term):
            if s.op in ('var', 'uf') and s.a[0].startswith('havoc!'):
                return self.goal(what, TRUE)           # the specification leaves it open
            if s.op == 'ite' and any(x.op in ('var', 'uf') and x.a[0].startswith('havoc!') for _, x in ite_leaves(s)):
                self.cmp(b, s.a[1], t, what, and_(hyp, s.a[0]))
                self.cmp(b, s.a[2], t, what, and_(hyp, not_(s.a[0])))
                return
            if self.isref(t):
                return self.ref(b, s, t, what, hyp)
            if b.sort != s.sort:
                raise Limit('%s: sorts differ' % what)
            g = eq(b, s) if b.sort == 'I' else iff(b, s) if b.sort == 'B' else same(b, s)
            return self.goal(what, g, hyp)
        if isinstance(b, Opaque) or isinstance(s, Opaque):
            return
        if vkey_safe(b) is not None and vkey_safe(b) == vkey_safe(s) and not self.has_fresh(b):
            self.goal(what, TRUE)
            return
        if isinstance(b, VIte):
            self.cmp(b.a, s, t, what, and_(hyp, b.c))
            self.cmp(b.b, s, t, what, and_(hyp, not_(b.c)))
            return
        if isinstance(s, VIte):
            self.cmp(b, s.a, t, what, and_(hyp, s.c))
            self.cmp(b, s.b, t, what, and_(hyp, not_(s.c)))
            return
        if isinstance(b, Seq) and isinstance(s, Seq):
            return self.seq(b, s, self.elem(t), what, hyp)
        if isinstance(b, Rec) and isinstance(s, Rec):
            for k in s.f:
                if k not in b.f:
                    raise Limit('%s: field %s missing' % (what, k))
                ft = self.T.ftype(k) if '::' in k else (t[3][0] if k == 'first' else t[3][1]) if t and t[0] == 'rec' and t[3] and k in ('first', 'second') else None
                oc = OBS.get(k)
                h0, hyp = hyp, and_(hyp, s.f[oc]) if oc else hyp
                if k == 'data':
                    ft = ['rec', 'std::vector', 'bytes', [['int', 8, False]]]
                self.cmp(b.f[k], s.f[k], ft, what + '.' + k.split('::')[-1], hyp)
                hyp = h0
            return
        if isinstance(b, Opt) and isinstance(s, Opt):
            self.goal(what + ' present', iff(b.has, s.has), hyp)
            self.cmp(b.val, s.val, t[3][0] if t else None, what, and_(hyp, b.has, s.has))
            return
        if isinstance(b, MapV) and isinstance(s, MapV):
            return self.map(b, s, what, hyp)
        if isinstance(b, It) and isinstance(s, It) and b.kind == s.kind and lvkey(b.lv) == lvkey(s.lv):
            return self.goal(what, eq(b.pos, s.pos), hyp)
        if isinstance(b, Ptr) and isinstance(s, Ptr):
            if lvkey(b.lv) == lvkey(s.lv):
                return
            if b.lv[0] == s.lv[0] == 'idx' and lvkey(b.lv[1]) == lvkey(s.lv[1]):
                return self.goal(what, eq(b.lv[2], s.lv[2]), hyp)
            if b.lv[0] == 'obj' and s.lv[0] == 'obj':
                return self.goal(what, eq(b.lv[1], s.lv[1]), hyp)
        raise Limit('%s: cannot compare %s with %s' % (what, type(b).__name__, type(s).__name__))
    def has_fresh(self, v):
        """does the value mention objects allocated during the run (their contents have to be compared)"""
        for t in tvals(v):
            if t.sort == 'I' and big(t):
                return True
        return False
    def elem(self, t):
        if t is None:
            return None
        if t[0] == 'arr':
            return t[1]
        if t[0] == 'rec' and t[3]:
            return t[3][0]
        return None
    def skolem(self, name='i'):
        return fresh('sk_' + name, 'I', 0, None)
    def seq(self, b, s, et, what, hyp):
        try:
            self.elements(b, s, et, what, hyp)
        except Limit as e:      # the rest is compared all the same
            self.out.append(Ob('post: ' + what, 'limit', and_(self.pc, hyp), None, str(e), len(self.ex.facts), len(self.ex.univs)))
    def elements(self, b, s, et, what, hyp):
        self.goal('length of ' + what, eq(b.n, s.n), hyp)
        h = and_(hyp, eq(b.n, s.n))
        if self.isref(et):
            # same sharing
            i, j = self.skolem(), self.skolem()
            hh = and_(h, le(I(0), i), lt(i, j), lt(j, s.n))
            try:
                bi, bj, si, sj = seq_get(b, i), seq_get(b, j), seq_get(s, i), seq_get(s, j)
                if big(si) or big(bi):
                    self.goal('distinct objects in ' + what, iff(eq(bi, bj), eq(si, sj)), hh)
            except Limit:
                pass
        ps, pb = s.parts, b.parts
        if len(ps) == len(pb) and len(ps) >= 1 and all(type(x) is type(y) for x, y in zip(ps, pb)):
            ok = True
            for x, y in zip(pb, ps):
                if isinstance(x, Lit) and len(x.vals) != len(y.vals):
                    ok = False
                if isinstance(x, (Tab, Flat)) and x.n is not y.n and len(ps) > 1:
                    ok = False
                if isinstance(x, Alt) and x.c is not y.c:
                    ok = False
            if ok:
                off = 0
                for x, y in zip(pb, ps):
                    self.part(x, y, et, what, h)
                return
        if len(s.parts) > 1 or len(b.parts) > 1:
            # common prefix and suffix of parts are compared pairwise when the lengths agree syntactically
            pb, ps = list(b.parts), list(s.parts)
            while pb and ps and type(pb[0]) is type(ps[0]) and self.plen(pb[0]) is self.plen(ps[0]) and not (isinstance(pb[0], Alt) and pb[0].c is not ps[0].c):
                self.part(pb[0], ps[0], et, what, h)
                pb.pop(0)
                ps.pop(0)
            b, s = Seq(pb), Seq(ps)
            if not pb and not ps:
                return
        n = s.n
        if n.op == 'int' and n.a <= 512:
            for i in range(n.a):
                self.cmp(seq_get(b, I(i)), seq_get(s, I(i)), et, '%s[%d]' % (what, i), h)
            return
        i = self.skolem()
        hh = and_(h, le(I(0), i), lt(i, n))
        self.cmp(seq_get(b, i), seq_get(s, i), et, what + '[i]', hh)
    def plen(self, p):
        return part_len(p)
    def part(self, x, y, et, what, h):
        if isinstance(x, Lit):
            for i, (u, v) in enumerate(zip(x.vals, y.vals)):
                self.cmp(u, v, et, '%s[%d]' % (what, i), h)
        elif isinstance(x, Tab):
            i = self.skolem()
            self.goal('piece length of ' + what, eq(x.n, y.n), h)
            self.cmp(vsubst(x.body, {x.k: i}), vsubst(y.body, {y.k: i}), et, what + '[i]', and_(h, le(I(0), i), lt(i, y.n)))
        elif isinstance(x, Flat):
            i = self.skolem()
            self.goal('piece count of ' + what, eq(x.n, y.n), h)
            self.seq(vsubst(x.body, {x.k: i}), vsubst(y.body, {y.k: i}), et, what + ' piece i', and_(h, le(I(0), i), lt(i, y.n)))
        elif isinstance(x, Alt):
            self.seq(x.a, y.a, et, what, and_(h, x.c))
            self.seq(x.b, y.b, et, what, and_(h, not_(x.c)))
        else:
            raise Limit('part comparison')
    def map(self, b, s, what, hyp):
        k = self.T.qkey(self.ex, s.kt)
        if self.isref(s.kt):
            k = fresh('qk', 'I', 1, REFMAX)
        hb, hs = self.ex.map_has(self.sb, b, k), self.ex.map_has(self.ss, s, k)
        self.goal('keys of ' + what, iff(hb, hs), hyp)
        if s.vt != ['bool']:
            self.cmp(self.ex.map_get(self.sb, b, k), self.ex.map_get(self.ss, s, k), s.vt, what + '[key]', and_(hyp, hb, hs))
        if self.isref(s.kt):
            self.members(b, s, what, hyp)
    def members(self, b, s, what, hyp):
        """sets of objects: the new objects in them correspond"""
        def never():
            return self.ex.decide(State(pc=and_(self.pc, hyp)), FALSE)
        def new(m):
            us = [u for u in m.ups if u[0] == 'clear' or (isinstance(u[2], Term) and big(u[2]))]
            while us and us[0][0] == 'clear':
                us = us[1:]          # nothing new to remove yet
            if any(u[0] not in ('set', 'each') for u in us):
                if never():
                    return None
                raise Limit('%s: new objects removed from a set' % what)
            return us
        ub, us = new(b), new(s)
        if ub is None or us is None:
            return
        if len(ub) != len(us) or any(x[0] != y[0] for x, y in zip(ub, us)):
            if never():
                return
            raise Limit('%s: different insertions of new objects' % what)
        for x, y in zip(ub, us):
            h = hyp
            gb, kb, gs, ks = x[1], x[2], y[1], y[2]
            if x[0] == 'each':
                i = self.skolem()
                self.goal('number of objects in ' + what, eq(x[5], y[5]), hyp)
                h = and_(hyp, le(I(0), i), lt(i, y[5]))
                gb, kb, gs, ks = subst(gb, {x[4]: i}), subst(kb, {x[4]: i}), subst(gs, {y[4]: i}), subst(ks, {y[4]: i})
            self.goal('objects in ' + what, iff(gb, gs), h)
            self.ref(kb, ks, s.kt, what + '{i}', and_(h, gs))
    def ref(self, b, s, t, what, hyp):
        if b is s and not big(b):
            return
        if b.op == 'ite':
            self.ref(b.a[1], s, t, what, and_(hyp, b.a[0]))
            self.ref(b.a[2], s, t, what, and_(hyp, not_(b.a[0])))
            return
        if s.op == 'ite':
            self.ref(b, s.a[1], t, what, and_(hyp, s.a[0]))
            self.ref(b, s.a[2], t, what, and_(hyp, not_(s.a[0])))
            return
        if and_(self.pc, hyp) is FALSE:
            return
        if not big(b) and not big(s):
            return self.goal(what, eq(b, s), hyp)
        if big(b) != big(s):
            return self.goal(what + ' (new object against existing one)', FALSE, hyp)
        pt = self.pointee(t)
        key = (b, s, hyp)
        if key in self.seen:
            return
        self.seen.add(key)
        if self.T.is_stream(pt):
            return self.cmp(self.ex.heap_read(self.sb, '%stream', b), self.ex.heap_read(self.ss, '%stream', s), None, '*' + what, hyp)
        db, ds = self.ex.heap_read(self.sb, '%dyn', b), self.ex.heap_read(self.ss, '%dyn', s)
        self.goal('class of ' + what, eq(db, ds), hyp)
        cls = pt[2]
        for c in self.T.subclasses(cls):
            if ds is I(self.T.cid(c)):
                cls = c
        # what an opaque call or a loop made of the two objects is the same when they were the same before
        ex = self.ex
        tok = fresh('sk_new', 'I', 1, REFMAX)
        def read(st, k, r, cls=None):
            old, ex.hvmap = ex.hvmap, dict(ex.hvmap, **{})
            ex.hvmap[r] = tok
            ex.hvhit = False
            try:
                return ex.heap_read(st, k, r, cls)
            finally:
                ex.hvmap = old
        for k, ft in self.T.fields(cls):
            h = and_(hyp, read(self.ss, OBS[k], s)) if k in OBS else hyp
            vb = read(self.sb, k, b, cls)
            hit = ex.hvhit
            self.cmp(vb, read(self.ss, k, s, cls), ft, '%s->%s' % (what, k.split('::')[-1]), h)
            if hit or ex.hvhit:
                def cut(st):
                    us = st.heap.get(k, ())
                    n = next((i for i, u in enumerate(us) if u[0] == 'hv'), len(us))
                    return ex.heap_read(State(st.cells, dict(st.heap, **{k: us[:n]}), st.pc), k, r, cls)
                r = b
                x = cut(self.sb)
                r = s
                self.cmp(x, cut(self.ss), ft, '%s->%s (before)' % (what, k.split('::')[-1]), h)
    def heap(self):
        def new(u):
            return u[0] != 'hv' and big(u[2] if u[0] == 'pt' else u[4])
        skip = ('%dyn', '%cin', '%cdone', '%cfmt', '%ceb', '%cstream', '%cdata', '%cstart', '%ccount', '%reader', '%rhdr')
        keys = sorted(set(self.sb.heap) | set(self.ss.heap))
        r = fresh('sk_obj', 'I', 1, REFMAX)
        for k in keys:
            if k in skip:
                continue
            ub, us = self.sb.heap.get(k, ()), self.ss.heap.get(k, ())
            if ub is us or ub == us:
                continue
            # updates of new objects only are irrelevant for existing ones
            ub = tuple(u for u in ub if not new(u))
            us = tuple(u for u in us if not new(u))
            if ub == us:
                continue
            ft = self.T.ftype(k) if not k.startswith('%') else None
            b = self.ex.heap_read(State(self.sb.cells, {k: ub}, self.sb.pc), k, r)
            s = self.ex.heap_read(State(self.ss.cells, {k: us}, self.ss.pc), k, r)
            h = self.ex.heap_read(self.ss, OBS[k], r) if k in OBS else TRUE
            self.cmp(b, s, ft, 'object field ' + k.split('::')[-1], h)

def big(t):
    return t.sort == 'I' and t.rng[0] >= FRESH_LO

def vkey_safe(v):
    try:
        return vkey(v)
    except Limit:
        return None

# ---------------------------------------------------------------------------------------------- verification
class Result:
    def __init__(self, fid):
        self.fid = fid
        self.obs = []          # (name, status, info)
        self.limit = None
        self.used, self.inlined, self.notes = set(), set(), set()
        self.nsyn = 0
        self.cover = None
        self.time = 0.0

def initial(ex, fun, opts):
    """symbolic pre-state: state, this lvalue, argument list, cells to compare"""
    st = State()
    T = ex.T
    this, watch = None, []
    cls = T.owner(fun['fun']) if fun.get('cls') else None
    if fun.get('cls') and not fun.get('static'):
        if fun.get('ctorfn'):
            this = ex.cell(st, T.raw(ex, cls), 'this')
        else:
            dyn = (opts.get('dyn') or '').split('|')[0] or cls
            this = ex.cell(st, T.sym(ex, ['rec', dyn, dyn, []], 'this', ()), 'this')
        watch.append((this, ['rec', cls, cls, []], 'this'))
    args = []
    for i, p in enumerate(fun['params']):
        t = p['t']
        nm = p['n'] or 'arg%d' % i
        if t[0] == 'ref':
            pt = t[1]
            v = T.sym(ex, pt, nm, ())
            lv = ex.cell(st, v, nm)
            ex.ctype[lv[1]] = pt
            args.append(lv)
            watch.append((lv, pt, nm))
        elif t[0] == 'ptr' and t[1][0] in ('int', 'flt', 'bool'):
            # null in the variant '|null', otherwise the address of an object of its own
            if (opts.get('dyn') or '').endswith('|null'):
                args.append(I(0))
                continue
            lv = ex.cell(st, T.sym(ex, t[1], nm, ()), nm)
            watch.append((lv, t[1], '*' + nm))
            args.append(Ptr(lv))
        elif t == ['bool'] and (opts.get('dyn') or '').endswith(('|%s=0' % nm, '|%s=1' % nm)):
            args.append(Bc(opts['dyn'].endswith('1')))       # one variant for each value
        else:
            args.append(T.sym(ex, t, nm, ()))
    return st, this, args, watch

def verify(prog, contracts, fid, inline=(), timeout=10.0, dyn=None):
    res = Result(fid + ('' if dyn is None else ' [dynamic class %s]' % dyn))
    t0 = time.time()
    con = contracts[fid]
    fun = prog.funs.get(fid)
    try:
        if fun is None or fun.get('body') is None:
            raise Limit('function not found in the current sources')
        ex = Exec(prog, {k: v for k, v in contracts.items() if k != fid or con.opts.get('recursive')}, 'c')
        opts = dict(con.opts)
        if dyn:
            opts['dyn'] = dyn
        st0, this, args, watch = initial(ex, fun, opts)
        if con.opts.get('setup'):
            con.opts['setup'](Ctx(ex, st0, fun, this, args, owner_of(ex, fun)))
        if con.pre is not None:
            ex.spec_mode += 1
            for name, t in con.pre(Ctx(ex, st0, fun, this, args, owner_of(ex, fun))):
                ex.fact(t)
                st0.pc = and_(st0.pc, t)
            ex.spec_mode -= 1
        pre_pc = st0.pc
        # body
        ex.contracts = {k: v for k, v in contracts.items() if k != fid or con.opts.get('recursive')}
        sb = st0.copy()
        ex.throws = []
        if con.opts.get('tail'):
            ex.tail_of = fid
        if con.opts.get('lockstep'):
            from .lockstep import Lock
            ex.lock = Lock(con, fun, this, list(args))
            nref = ex.nref
        rb = ex.run_fun(sb, fun, this, list(args))
        ex.tail_of = None
        tb, lb = ex.throws, ex.tails
        # specification
        ex.contracts = contracts
        ss = st0.copy()
        if ex.lock is not None:
            ex.nref = nref           # objects made in the same order get the same names
        ex.throws, ex.tails = [], []
        c = Ctx(ex, ss, fun, this, list(args), owner_of(ex, fun))
        ex.spec_mode += 1
        try:
            con.spec(c)
        finally:
            ex.spec_mode -= 1
        ss = c.st
        rs = c.retval
        if ex.lock is not None and ex.lock.pos != len(ex.lock.recs):
            raise Limit('a loop has no counterpart in the specification')
        ts, ls = ex.throws, ex.tails
        ex.throws, ex.tails = [], []
        # outcomes
        nb, ns = sb.pc, ss.pc
        obs = list(ex.obs)
        thb, ths = or_(*[e.st.pc for e in tb]), or_(*[e.st.pc for e in ts])
        cmpo = list(ex.lock.obs) if ex.lock is not None else []
        g = iff(nb, ns)
        if thb is not FALSE or ths is not FALSE:
            cmpo.append(Ob('post: throws exactly when specified', 'throws', pre_pc, and_(implies(ths, not_(nb)), implies(ns, not_(thb))), fid, None, None))
        pb, ps = or_(*[e.st.pc for e in lb]), or_(*[e.st.pc for e in ls])
        if pb is not FALSE or ps is not FALSE:
            cmpo.append(Ob('post: repeats exactly when specified', 'repeats', pre_pc, and_(
                implies(ps, and_(not_(nb), not_(thb))), implies(pb, and_(not_(ns), not_(ths))), implies(ns, not_(pb)), implies(ths, not_(pb))), fid, None, None))
        if pb is not FALSE and ps is not FALSE:
            (eb, vb), (es, vs) = merge_tails(lb), merge_tails(ls)
            cm = Cmp(ex, eb, es, and_(eb.pc, es.pc))
            for p, x, y in zip(fun['params'], vb, vs):
                cm.cmp(x, y, p['t'], 'argument ' + p['n'])
            for lv, t, nm in watch:
                cm.cmp(ex.read(eb, lv), ex.read(es, lv), t, nm + ' before repeating')
            cm.heap()
            cmpo += cm.out
        if con.opts.get('opaque'):
            c0 = Ctx(ex, st0, fun, this, list(args), owner_of(ex, fun))
            may = dict(may_change(ex, k) for k in con.opts['opaque'](c0))
            for e in [sb] + [x.st for x in tb + lb]:
                for k in snapshot(e):
                    if k == '%stream':
                        from .lockstep import stream_check
                        fm = con.opts['stream'](c0) if con.opts.get('stream') else None
                        cmpo += stream_check(ex, st0, e, fm, 'frame: the stream', e is sb or any(e is x.st for x in lb))
                    elif k in may:
                        if may[k] is not TRUE:
                            cmpo += frame_check(ex, st0, e, k, may[k], 'frame: ' + k.split('::')[-1] + ' of other objects')
                    else:
                        cmpo.append(Ob('frame: changes only what it may change: ' + k, 'frame', pre_pc, FALSE, fid, None, None))
        both = and_(nb, ns)
        if both is not FALSE:
            cm = Cmp(ex, sb, ss, both)
            if fun['ret'][0] != 'void' and not fun.get('ctorfn'):
                cmp_ret(cm, rb, rs, fun['ret'])
            for lv, t, nm in watch:
                cm.cmp(ex.read(sb, lv), ex.read(ss, lv), t, nm)
            cm.heap()
            cmpo += cm.out
        if thb is not FALSE and ths is not FALSE and not con.opts.get('throw_any') and not fun.get('ctorfn'):
            eb, es = merge_events(tb)[0], merge_events(ts)[0]
            cm = Cmp(ex, eb, es, and_(eb.pc, es.pc))
            for lv, t, nm in watch:
                if nm not in con.opts.get('throw_havoc', ()):
                    cm.cmp(ex.read(eb, lv), ex.read(es, lv), t, nm + ' after a throw')
            cm.heap()
            cmpo += cm.out
        res.used, res.inlined, res.notes = set(ex.used_contracts), set(ex.inlined), set(ex.notes)
        res.nsyn = getattr(ex, 'nsyn', 0)
        # equal contents have equal identities
        solve(ex, res, obs + cmpo, timeout, con)
        # vacuity: some pre-state reaches a normal return or a specified throw
        r, info = smt.check(relevant(ex.facts, [pre_pc]) + [pre_pc], FALSE, ex.univs, (), 3.0, fp=False)
        res.cover = r != 'proved'
        if not res.cover:
            res.obs.append(('the preconditions can be met', 'failed', 'contradictory precondition'))
    except Limit as e:
        res.limit = str(e)
    except RecursionError:
        res.limit = 'recursion depth'
    res.time = time.time() - t0
    return res

def merge_tails(evs):
    st, val = evs[0].st, evs[0].val
    for e in evs[1:]:
        c = split_pc(st.pc, e.st.pc)
        val = [vite(c, x, y) for x, y in zip(val, e.val)]
        st = merge_states(st, e.st, c)
    return st, val
def cmp_ret(cm, rb, rs, t):
    if t[0] == 'ref':
        # reference results: same object, compared by the value reached and by identity where both are lvalues
        if isinstance(rb, tuple) and isinstance(rs, tuple):
            cm.cmp(cm.ex.read(cm.sb, rb), cm.ex.read(cm.ss, rs), t[1], 'result')
            if not t[2]:
                cm.goal('result designates the specified object', TRUE if lvkey(rb) == lvkey(rs) else lv_same(rb, rs))
            return
        raise Limit('reference result')
    if rb is None or rs is None:
        raise Limit('missing result')
    cm.cmp(rb, rs, t, 'result')

def lv_same(a, b):
    if a[0] != b[0]:
        return FALSE
    if a[0] == 'idx' and lvkey(a[1]) == lvkey(b[1]):
        return eq(a[2], b[2])
    if a[0] == 'fld' and a[2] == b[2]:
        return lv_same(a[1], b[1])
    if a[0] == 'obj':
        return eq(a[1], b[1])
    return TRUE if lvkey(a) == lvkey(b) else FALSE

def seqids(ts):
    out, seen, st = set(), set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'uf' and t.a[0].startswith('seqid#'):
            out.add(t)
        st.extend(kids(t))
    return out

def unify_ids(ex, ob, timeout):
    """facts id == id' for pairs of sequence identities in the obligation whose contents are provably equal"""
    ids = sorted(seqids([ob.goal, ob.pc]), key=lambda t: t.id)
    by = {t.a[0]: (t, s) for t, s in SEQID.values()}
    def content(t):
        if t.a[0] not in by:
            return None
        t0, s = by[t.a[0]]
        m = {x: y for x, y in zip(t0.a[1], t.a[1]) if x is not y}
        return vsubst(s, m) if m else s
    out, sure = [], True
    for i, a in enumerate(ids):
        for b in ids[i + 1:]:
            if a is b:
                continue
            sa, sb = content(a), content(b)
            if sa is None or sb is None:
                continue
            cm = Cmp(ex, State(), State(), ob.pc)
            try:
                cm.seq(sa, sb, None, 'contents', TRUE)
            except Limit:
                continue
            rs = []
            for o in cm.out:
                rs.append(prove(ex, o, timeout)[0])
                if rs[-1] != 'proved':
                    break
            if all(r == 'proved' for r in rs):
                out.append(eq(a, b))
            elif rs[-1] == 'unknown':
                sure = False
    return out, sure

def shared_context(ts, targets):
    """literals that stand beside every occurrence of the targets (conjoined with it, or the negations of its
    alternatives): the targets matter only where they hold"""
    out = []
    targets = set(targets)
    has = {}
    def inside(t):
        st = [t]
        while st:
            x = st[-1]
            if x in has:
                st.pop()
                continue
            if x in targets:
                has[x] = True
                st.pop()
                continue
            ks = kids(x)
            todo = [y for y in ks if y not in has]
            if todo:
                st += todo
            else:
                has[x] = any(has[y] for y in ks)
                st.pop()
        return has[t]
    best = {}
    def go(t, ctx):
        if t in targets:
            out.append(ctx)
            return
        if t in best and best[t] <= ctx:      # nothing new can come of a weaker context that was seen
            return
        best[t] = best[t] & ctx if t in best else ctx
        ks = kids(t)
        for y in ks:
            if not inside(y):
                continue
            c = ctx
            if t.op in ('and', 'or'):
                c = set(ctx)
                for z in ks:
                    if z is not y and not inside(z):
                        z = z if t.op == 'and' else not_(z)
                        c.update(z.a if z.op == 'and' else (z,))
                c = frozenset(c)
            go(y, c)
    for t in ts:
        if inside(t):
            go(t, frozenset())
    if not out:
        return TRUE
    r = out[0]
    for x in out[1:]:
        r = r & x
    return and_(*sorted(r, key=lambda x: x.id))

def unify_ghosts(ex, ob, timeout):
    """facts a == b for pairs of sums, existentials and their witnesses in the obligation whose bodies are provably equal
    point by point"""
    from .values import GHOST
    gs = sorted(smt.ghosts_in([ob.goal, ob.pc]), key=lambda t: t.id)
    groups = {}
    for g in gs:
        d = GHOST[g.a[0]]
        if d['tag'] in ('sum', 'ex', 'wit', 'last'):
            groups.setdefault((d['tag'] == 'sum', tuple(vkey(x) for x in d['canon']), g.a[1]), []).append(g)
    groups = list(groups.values())
    out, sure = [], True
    if len(groups) > 12:
        return out, sure
    def body(g, k):
        d = GHOST[g.a[0]]
        nx = len(g.a[1]) - len(d['free'])
        m = dict(zip(d['free'], g.a[1][nx:]))
        m[d['bound'][0]] = k
        return g.a[1][0], subst(d['canon'][0], m)
    tags = lambda grp: {GHOST[g.a[0]]['tag']: g for g in grp}
    merged = set()
    for i, p in enumerate(groups):
        for j in range(i + 1, len(groups)):
            a, b, ta, tb = p[0], groups[j][0], tags(p), tags(groups[j])
            if j in merged or not set(ta) & set(tb):
                continue
            k = fresh('sk_g', 'I', 0, None)
            (na, ba), (nb, bb) = body(a, k), body(b, k)
            if ba.sort != bb.sort:
                continue
            g = and_(eq(na, nb), implies(lt(k, na), (eq if ba.sort == 'I' else iff)(ba, bb)))
            r = 'proved' if g is TRUE else prove(ex, Ob('sum', 'sum', ob.pc, g, '', None, None), timeout, pool=[k])[0]
            where = TRUE
            if r != 'proved':                 # perhaps they agree where it matters
                where = shared_context([ob.goal], p + groups[j])
                if where is not TRUE:
                    r2 = prove(ex, Ob('sum', 'sum', and_(ob.pc, where), g, '', None, None), timeout, pool=[k])[0]
                    r = r2 if r2 == 'proved' else r
            if r == 'proved':
                out += [implies(where, (eq if ta[t].sort == 'I' else iff)(ta[t], tb[t])) for t in ta if t in tb]
                if where is TRUE:
                    merged.add(j)
            elif r == 'unknown':
                sure = False
    return out, sure

def prove(ex, o, timeout, extra=(), pool=()):
    if o.goal is None:
        return 'unknown', 'not compared'
    # facts introduced anywhere in the run are definitional (ghosts) or preconditions: all may be used
    hyps = relevant(ex.facts, [o.pc, o.goal] + list(extra)) + [o.pc] + list(extra)
    return smt.check(hyps, o.goal, ex.univs, pool, timeout)

def skolems(ts):
    out, seen, st = [], set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'var' and t.sort == 'I' and t.a[0].startswith('sk_'):
            out.append(t)
        st.extend(kids(t))
    return out

def solve(ex, res, obs, timeout, con=None):
    nbad = 0
    for o in obs:
        if o.kind == 'limit':
            res.obs.append(('%s (%s)' % (o.name, o.where), 'unknown', 'not compared'))
            continue
        if or_(not_(o.pc), o.goal) is TRUE:
            res.nsyn += 1
            continue
        pool = skolems([o.goal, o.pc])
        if nbad > 8:                      # the function is in trouble already: the rest is not worth long waits
            timeout = min(timeout, 3.0)
        st, info = prove(ex, o, timeout, pool=pool)
        if st != 'proved':
            ids, sure = unify_ids(ex, o, timeout)
            gh, s2 = unify_ghosts(ex, o, timeout)
            ids, sure = ids + gh, sure and s2
            if ids:
                st, info = prove(ex, o, timeout, ids, pool)
            if st != 'proved':
                nbad += 1
                if not sure:
                    st = 'unknown'
        res.obs.append(('%s @ %s' % (o.name, o.where), st, info if isinstance(info, str) else info))

# ---------------------------------------------------------------------------------------------- lemmas
class Lemma:
    def __init__(self, name, fn, props):
        self.name, self.fn, self.props = name, fn, tuple(props)

class LCtx(Ctx):
    """a lemma: symbolic values, specifications applied in sequence, goals"""
    def __init__(self, ex):
        self.ex, self.T = ex, ex.T
        self.st = State()
        self.goals = []
        self.names, self.args, self.this, self.cls, self.fun, self.retval = {}, [], None, None, None, None
    def var(self, t, name):
        return self.T.sym(self.ex, t, name, ())
    def object(self, cls, name):
        """a cell holding an arbitrary object"""
        return self.ex.cell(self.st, self.T.sym(self.ex, ['rec', cls, cls, []], name, ()), name)
    def raw(self, cls):
        return self.ex.cell(self.st, self.T.raw(self.ex, cls), 'new')
    def cellv(self, v, name='v'):
        return self.ex.cell(self.st, v, name)
    def assume(self, t):
        self.ex.fact(t)
        self.st.pc = and_(self.st.pc, t)
    def prove(self, name, g):
        self.goals.append(Ob('lemma: ' + name, 'lemma', self.st.pc, g, name, None, None))
    def prove_same(self, name, a, b, t):
        cm = Cmp(self.ex, self.st, self.st, self.st.pc)
        cm.cmp(a, b, t, name)
        self.goals += cm.out
        if not cm.out:
            self.ex.nsyn = getattr(self.ex, 'nsyn', 0) + 1

def verify_lemma(prog, contracts, lem, timeout=10.0):
    res = Result('lemma ' + lem.name)
    t0 = time.time()
    try:
        ex = Exec(prog, contracts, 'c')
        ex.throws = []
        L = LCtx(ex)
        ex.spec_mode += 1
        used = set()
        old = L.call
        def call(fid, this, args):
            used.add(fid)
            return old(fid, this, args)
        L.call = call
        lem.fn(L)
        ex.spec_mode -= 1
        res.used = used
        res.nsyn = getattr(ex, 'nsyn', 0)
        solve(ex, res, L.goals, timeout)
        r, info = smt.check(relevant(ex.facts, [L.st.pc]) + [L.st.pc], FALSE, ex.univs, (), 3.0, fp=False)
        res.cover = r != 'proved'
        if not res.cover:
            res.obs.append(('the hypotheses can be met', 'failed', 'contradictory'))
    except Limit as e:
        res.limit = str(e)
    res.time = time.time() - t0
    return res

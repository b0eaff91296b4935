"""Loops without a closed form: the loop of the body and the loop of the specification are run side by side.

Both start from the same state (obligation); from an arbitrary state of everything the loop changes (equal in both) they take
the same decision and one iteration of each leads to equal states or throws in both (obligations).  By induction both loops end
in the same state, of which nothing is known but that the condition no longer holds."""
from .term import *
from .values import *
from .exec import State, Ob, merge_events
from .loops import Snap
from .types import REFMAX, norm
from .exec import REFSP
from . import contract as K

IDX = ['idx']
class Lock:
    def __init__(self, con, fun, this, args):
        self.con, self.fun, self.this, self.args = con, fun, this, args
        self.recs, self.pos, self.obs = [], 0, []

def symv(ex, t, name):
    if t == IDX:
        return uf(name, (), 'I', 0, 1 << 48)
    if t[0] == 'ptr' or t[0] == 'rec' and norm(t[1]) in ('std::shared_ptr', 'std::unique_ptr'):
        return uf(name, (), 'I', 0, REFMAX)
    return ex.T.sym(ex, t, name, ())

# the one stream a function reads on or appends to
def form(ex, L, st):
    f = L.con.opts.get('stream')
    return f(K.Ctx(ex, st, L.fun, L.this, L.args, K.owner_of(ex, L.fun))) if f else None
def stream_havoc(ex, st, fm, name, args=()):
    if fm is None:
        return
    kind, lv = fm
    s = ex.read(st, lv)
    if kind == 'r':
        s = s.set('g', uf(name + '.g', args, 'I', 0, 1 << 60)).set('fail', FALSE)
    else:
        n = uf(name + '.tail.n', args, 'I', 0, 1 << 48)
        d = cat(s.f['data'], tab(n, lambda k: uf(name + '.tail', args + (k,), 'I', 0, 255)))
        s = s.set('data', d).set('p', d.n).set('fail', FALSE)
    ex.write(st, lv, s)
def stream_check(ex, st0, st1, fm, what, returns=True):
    """only that stream changes, and only in that way"""
    r = fresh('sk_obj', 'I', 1, REFMAX)
    a, b = ex.heap_read(st1, '%stream', r), ex.heap_read(st0, '%stream', r)
    out = []
    if fm is None or fm[1][0] != 'hf':
        cm = K.Cmp(ex, st1, st0, st1.pc)
        cm.cmp(a, b, None, what)
        return cm.out
    kind, lv = fm
    cm = K.Cmp(ex, st1, st0, and_(st1.pc, ne(r, lv[1])))
    cm.cmp(a, b, None, what + ' (others)')
    out += cm.out
    a, b = ex.read(st1, lv), ex.read(st0, lv)
    cm = K.Cmp(ex, st1, st0, st1.pc)
    if kind == 'r':
        cm.cmp(a.set('g', b.f['g']).set('fail', b.f['fail']), b, None, what)
        if returns:
            cm.goal(what + ' has not failed', not_(a.f['fail']))
    else:
        n = b.f['data'].n
        cm.goal(what + ' only grows', le(n, a.f['data'].n))
        cm.cmp(seq_slice(a.f['data'], I(0), n), b.f['data'], None, what + ' (what was there)', le(n, a.f['data'].n))
        cm.cmp(a.set('data', b.f['data']).set('p', b.f['p']).set('fail', b.f['fail']), b, None, what)
        if returns:
            cm.goal(what + ' has not failed', not_(a.f['fail']))
            cm.goal(what + ' is left at its end', eq(a.f['p'], a.f['data'].n))
    return out + cm.out

def bounds(ex, L, st):
    """the objects of which the function may change a field"""
    f = L.con.opts.get('opaque')
    return dict(K.may_change(ex, k) for k in f(K.Ctx(ex, st, L.fun, L.this, L.args, K.owner_of(ex, L.fun)))) if f else {}
def generic(ex, L, entry, cells, types, keys, stream, name):
    x = entry.copy()
    for i, (c, t) in enumerate(zip(cells, types)):
        x.cells[c] = symv(ex, t, '%s.%d' % (name, i))
    may = bounds(ex, L, entry)
    for k in keys:
        x.heap[k] = x.heap.get(k, ()) + (('hv', may.get(k, TRUE), name, ()),)
    if stream:
        stream_havoc(ex, x, form(ex, L, x), name)
    return x

def changed(entry, g, x, born):
    """cells and heap fields an iteration changes"""
    cells = [c for c in entry.cells if x.cells.get(c) is not g.cells[c] and not same_v(x.cells.get(c), g.cells[c])]
    keys, stream = [], False
    for k, us in x.heap.items():
        if k in K.UNSEEN:
            continue
        gs = g.heap.get(k, ())
        if us is gs or us == gs:
            continue
        i = 0
        while i < len(gs) and i < len(us) and (us[i] is gs[i] or us[i] == gs[i]):
            i += 1
        new = us[i:]
        # objects made by this iteration are of no concern to others
        new = [u for u in new if u[0] == 'hv' or (u[2] if u[0] == 'pt' else u[4]).rng[0] < born]
        if k == '%stream':
            stream = stream or bool(new)
        elif new or i < len(gs):
            keys.append(k)
    return cells, keys, stream
def same_v(a, b):
    ka, kb = K.vkey_safe(a), K.vkey_safe(b)
    return ka is not None and ka == kb

def iterate(ex, g, cond, step, dry):
    fr = ex.frames[-1] if ex.frames else None
    x = g.copy()
    old, ex.throws = ex.throws, []
    nr = len(fr.rets) if fr else 0
    brk = []
    if dry:
        ex.dry += 1
    try:
        c = cond(x)
        if x.pc is not g.pc or any(x.cells.get(n) is not v for n, v in g.cells.items()) or any(x.heap[k] is not g.heap.get(k) for k in x.heap):
            raise Limit('a loop condition with effects')
        x.pc = and_(x.pc, c)
        if x.pc is not FALSE:
            step(x, brk)
        if brk or fr and len(fr.rets) > nr:
            raise Limit('a loop left early that has no closed form')
        thr = or_(*[e.st.pc for e in ex.throws])
    finally:
        ex.throws = old
        if fr:
            del fr.rets[nr:]
        if dry:
            ex.dry -= 1
    return c, x, thr

def after(ex, L, entry, cells, types, keys, stream, n, cond, throws):
    y = generic(ex, L, entry, cells, types, keys, stream, 'lo%d' % n)
    if throws:
        if not L.con.opts.get('throw_any'):
            raise Limit('a loop that may throw in a function whose state after a throw is specified')
        ex.throw(y, uf('lo%d.throws' % n, (), 'B'))
        if y.pc is FALSE:
            return y
    y.pc = and_(y.pc, not_(cond(y)))
    return y

def body_loop(ex, st, cond, step):
    L = ex.lock
    if ex.loopvars:
        raise Limit('a loop without a closed form inside another')
    n = len(L.recs)
    entry = st.copy()
    born = (ex.nref * 2 + 2) * (REFSP << 110)
    cells, types, keys, stream = [], [], [], False
    def g():
        x = generic(ex, L, entry, cells, types, keys, stream, 'lg%d' % n)
        return x
    for _ in range(6):
        snap, no, marks = Snap(ex), len(ex.opq), len(ex.obs)
        x0 = g()
        c, x, thr = iterate(ex, x0, cond, step, True)
        cs, ks, sm = changed(entry, x0, x, born)
        snap.restore()
        del ex.opq[no:]
        del ex.obs[marks:]
        new = [c for c in cs if c not in cells], [k for k in ks if k not in keys], sm and not stream
        if not any(new):
            break
        for c in new[0]:
            if c not in ex.ctype:
                raise Limit('a loop changes a local of unknown type')
        cells = [c for c in entry.cells if c in cells or c in new[0]]
        types = [ex.ctype[c] for c in cells]
        keys = keys + new[1]
        stream = stream or sm
    else:
        raise Limit('what a loop changes')
    if stream and form(ex, L, entry) is None:
        raise Limit('a loop changes a stream')
    x0 = g()
    w, ex.where = ex.where, ex.where
    c, x, thr = iterate(ex, x0, cond, step, False)
    if stream:
        L.obs += stream_check(ex, entry, x, form(ex, L, entry), 'the stream after an iteration')
    for k, g in bounds(ex, L, entry).items():
        if k in keys and g is not TRUE:
            L.obs += K.frame_check(ex, entry, x, k, g, 'frame of the loop: ' + k.split('::')[-1] + ' of other objects')
    L.recs.append(dict(entry=entry, cells=cells, types=types, keys=keys, stream=stream, g=x0, c=c, post=x, thr=thr))
    st.become(after(ex, L, entry, cells, types, keys, stream, n, cond, thr is not FALSE))

def spec_loop(c, cells, cond, step):
    ex, L = c.ex, c.ex.lock
    n = L.pos
    L.pos += 1
    if n >= len(L.recs):
        raise Limit('the loop of the specification has no counterpart')
    B = L.recs[n]
    if len(cells) != len(B['cells']):
        raise Limit('the loop of the specification changes other locals')
    names = [lv[1] for lv in cells]
    entry = c.st.copy()
    g = generic(ex, L, entry, names, B['types'], B['keys'], B['stream'], 'lg%d' % n)
    def at(f):
        def run(x, *_):
            old, c.st = c.st, x
            try:
                r = f()
                if c.st is not x:
                    x.become(c.st)
                return r
            finally:
                c.st = old
        return run
    cc, x, thr = iterate(ex, g, at(cond), at(step), False)
    def compare(b, s, pc, what):
        cm = K.Cmp(ex, b, s, pc)
        for nb, ns, t in zip(B['cells'], names, B['types']):
            cm.cmp(b.cells[nb], s.cells[ns], None if t == IDX else t, 'local ' + what)
        cm.heap()
        for o in cm.out:
            o.name += ' ' + what if what not in o.name else ''
        L.obs += cm.out
    fid = L.con.fid
    compare(B['entry'], entry, and_(B['entry'].pc, entry.pc), 'before loop %d' % (n + 1))
    pc = and_(B['g'].pc, g.pc)
    L.obs.append(Ob('post: loop %d goes on exactly when specified' % (n + 1), 'post', pc, iff(B['c'], cc), fid, None, None))
    both = and_(pc, B['c'], cc)
    if B['thr'] is not FALSE or thr is not FALSE:
        L.obs.append(Ob('post: loop %d throws exactly when specified' % (n + 1), 'post', both, iff(B['thr'], thr), fid, None, None))
    compare(B['post'], x, and_(both, B['post'].pc, x.pc), 'after an iteration of loop %d' % (n + 1))
    c.st.become(after(ex, L, entry, names, B['types'], B['keys'], B['stream'], n, at(cond), B['thr'] is not FALSE))

"""Lowering to z3 / cvc5 and the proof portfolio."""
import z3, time, os
from .term import *
STATS = {'queries': 0, 'time': 0.0, 'z3': 0, 'syntactic': 0, 'z3-fp': 0, 'z3-bv': 0, 'cvc5': 0}

class Univ:
    """for all integers vs: body"""
    __slots__ = ('vs', 'body', 'pats', 'note')
    def __init__(self, vs, body, note=''):
        self.vs = tuple(vs) if isinstance(vs, (tuple, list)) else (vs,)
        self.body, self.note = body, note
        self.pats = None
    def patterns(self):
        """uf applications in the body, with each quantified variable they bind: (name, arity, {var: (arg index, sign, rest)})"""
        if self.pats is None:
            pats, seen = [], set()
            vs = set(self.vs)
            def go(t):
                if t in seen or not (vs & atoms(t)):
                    return
                seen.add(t)
                if t.op == 'uf':
                    b = {}
                    for i, x in enumerate(t.a[1]):
                        for v in vs & atoms(x):
                            if v in b or x.sort != 'I':
                                continue
                            p = poly(x)
                            c = p.get((v,))
                            rest = from_poly({m: k for m, k in p.items() if m != (v,)})
                            if c in (1, -1) and not (vs & atoms(rest)):
                                b[v] = (i, c, rest)
                    if b:
                        pats.append((t.a[0], len(t.a[1]), b))
                for x in kids(t):
                    go(x)
            go(self.body)
            full = [p for p in pats if len(p[2]) == len(vs)]
            self.pats = full or pats
        return self.pats

def collect_ufs(ts):
    out, seen = {}, set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'uf':
            out.setdefault((t.a[0], len(t.a[1])), set()).add(t)
        st.extend(kids(t))
    return out

def eq_points(u):
    """values for which an equation of the body holds"""
    out, seen, st = [], set(), [u.body]
    v = u.vs[0]
    while st:
        t = st.pop()
        if t in seen or v not in atoms(t):
            continue
        seen.add(t)
        if t.op == 'eq0':
            p = poly(t.a[0])
            c = p.get((v,))
            if c in (1, -1):
                r = from_poly({m: z for m, z in p.items() if m != (v,)})
                if v not in atoms(r):
                    out.append(neg(r) if c == 1 else r)
        st.extend(kids(t))
    return out[:4]

def instantiate(ground, univs, pool, rounds=4, limit=900):
    """ground: list of terms; returns the instances"""
    import itertools
    done, inst = set(), []
    eqs = {u: eq_points(u) for u in univs if len(u.vs) == 1}
    ufs = collect_ufs(ground)
    new = ufs
    pool = list(pool)
    for r in range(rounds):
        added = []
        for u in univs:
            tuples = set()
            per = {v: set(pool) if len(u.vs) == 1 else set() for v in u.vs}
            for t in eqs.get(u, ()):
                tuples.add((t,))
            for (nm, n, b) in u.patterns():
                for g in (new if len(b) == len(u.vs) else ufs).get((nm, n)) or ():
                    m = {}
                    for v, (i, c, rest) in b.items():
                        d = sub(g.a[1][i], rest)
                        m[v] = d if c == 1 else neg(d)
                    if len(m) == len(u.vs):
                        tuples.add(tuple(m[v] for v in u.vs))
                    else:
                        for v, x in m.items():
                            per[v].add(x)
            if all(per.values()):
                n = 1
                for x in per.values():
                    n *= len(x)
                if n <= 300:
                    tuples.update(itertools.product(*[sorted(per[v]) for v in u.vs]))
            for xs in sorted(tuples, key=lambda t: tuple(x.id for x in t)):
                if (u, xs) in done:
                    continue
                done.add((u, xs))
                b = subst(u.body, dict(zip(u.vs, xs)))
                for v, x in zip(u.vs, xs):         # a bound variable stands for the values of its range only
                    lo, hi = v.rng if v.sort == 'I' else (None, None)
                    if lo is not None and lo != -INF and not lo <= x.rng[0]:
                        b = implies(le(I(lo), x), b)
                    if hi is not None and hi != INF and not x.rng[1] <= hi:
                        b = implies(le(x, I(hi)), b)
                if b is TRUE:
                    continue
                added.append(b)
                if len(inst) + len(added) > limit:
                    inst += added
                    return inst
        if not added:
            break
        inst += added
        fresh_ufs = collect_ufs(added)
        new = {}
        for k, s in fresh_ufs.items():
            d = s - ufs.get(k, set())
            if d:
                new[k] = d
                ufs.setdefault(k, set()).update(d)
    return inst

_exp = {}
def ghost_def(t):
    """definition of a ghost occurrence: (facts, universals)"""
    from .values import GHOST, sibling
    r = _exp.get(t)
    if r is not None:
        return r
    d = GHOST.get(t.a[0])
    if d is None:
        return (), ()
    nx = d['n']
    ext, fr = t.a[1][:nx], t.a[1][nx:]
    m = dict(zip(d['free'], fr))
    n = ext[0] if ext else None
    tag, canon, bound = d['tag'], d['canon'], d['bound']
    def at(i, j, *acc):
        mm = dict(m)
        mm[bound[0]] = j
        for b, a in zip(bound[1:], acc):
            mm[b] = a
        return subst(canon[i], mm)
    def sib(tg, sort, lo=None, hi=None):
        return sibling(tg, t, sort, lo, hi)
    facts, univs = [], []
    j = fresh('q', 'I', 0, None)
    if tag in ('ex', 'wit', 'last'):
        ex = sib('ex', 'B') if tag != 'ex' else t
        if tag == 'ex':
            w = sib('wit', 'I', 0, 1 << 48)
            facts.append(implies(ex, and_(le(I(0), w), lt(w, n), at(0, w))))
            facts.append(implies(and_(lt(I(0), n), not_(ex)), not_(at(0, I(0)))))
            univs.append(Univ([j], implies(and_(le(I(0), j), lt(j, n), or_(not_(ex), lt(j, w))), not_(at(0, j))), 'first'))
        elif tag == 'wit':
            facts.append(or_(ex, not_(ex)))
            f2, u2 = ghost_def(ex)
            facts += f2
            univs += u2
        else:
            facts.append(implies(ex, and_(le(I(0), t), lt(t, n), at(0, t))))
            univs.append(Univ([j], implies(and_(le(I(0), j), lt(j, n), or_(not_(ex), lt(t, j))), not_(at(0, j))), 'last'))
    elif tag == 'sum':
        one = sub(n, I(1))
        prev = sibling('sum', t, 'I', t.rng[0] if t.rng[0] == 0 else None, None, extra=[one])
        facts.append(ite(le(n, I(0)), eq(t, I(0)), eq(t, add(prev, at(0, one)))))
        hi = canon[0].rng[1]
        if hi is not None and hi != INF and hi < 1 << 64:
            facts.append(ite(le(n, I(0)), eq(t, I(0)), le(t, scale(n, hi))))
    elif tag == 'fold':
        # canon: [step(k, acc), init]
        one = sub(n, I(1))
        prev = uf(t.a[0], (one,) + tuple(fr), t.sort, *(t.rng if t.sort == 'I' else (None, None)))
        s = at(0, one, prev)
        e = (eq if t.sort == 'I' else iff if t.sort == 'B' else same)
        facts.append(ite(le(n, I(0)), e(t, subst(canon[1], m)), e(t, s)))
    elif tag.startswith('joint'):
        # canon: steps of the components, then their initial values
        i, w = int(tag[5:]), len(canon) // 2
        one = sub(n, I(1))
        prevs = []
        for q in range(w):
            a = bound[1 + q]
            lo, hi = (a.a[1], a.a[2]) if a.sort == 'I' else (None, None)
            prevs.append(sibling('joint%d' % q, t, a.sort, lo, hi, extra=[one]))
        s = at(i, one, *prevs)
        e = (eq if t.sort == 'I' else iff if t.sort == 'B' else same)
        facts.append(ite(le(n, I(0)), e(t, subst(canon[w + i], m)), e(t, s)))
    elif tag in ('max', 'min'):
        up = (lambda a, b: le(a, b)) if tag == 'max' else (lambda a, b: le(b, a))
        init = subst(canon[1], m)
        w = uf(t.a[0] + '.at', t.a[1], 'I', 0, 1 << 48)
        facts.append(up(init, t))
        facts.append(or_(eq(t, init), and_(le(I(0), w), lt(w, n), eq(at(0, w), t))))
        univs.append(Univ([j], implies(and_(le(I(0), j), lt(j, n)), up(at(0, j), t)), 'max'))
    _exp[t] = (tuple(facts), tuple(univs))
    return _exp[t]

def ghosts_in(ts):
    from .values import GHOST
    out, seen, st = [], set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'uf' and t.a[0] in GHOST:
            out.append(t)
        st.extend(kids(t))
    return out

def unfolds(tag):
    return tag in ('sum', 'fold') or tag.startswith('joint')

def expand(ts, univs):
    """definitional facts of the ghost symbols that occur"""
    from .values import GHOST
    done, facts, us = set(), [], []
    cur = list(ts)
    for depth in range(3):
        gs = [g for g in ghosts_in(cur) if g not in done]
        if not gs:
            break
        cur = []
        for g in gs:
            done.add(g)
            if depth == 2 and unfolds(GHOST[g.a[0]]['tag']):
                continue
            if depth >= 1 and unfolds(GHOST[g.a[0]]['tag']):
                continue
            f, u = ghost_def(g)
            facts += f
            us += u
            cur += f
    # sums of one body: monotone in the bound when the terms are not negative
    by = {}
    for g in done:
        if GHOST[g.a[0]]['tag'] == 'sum' and g.rng[0] == 0:
            by.setdefault((g.a[0], g.a[1][1:]), []).append(g)
    for (nm, fr), gs in by.items():
        if len(gs) > 8:
            continue
        d = GHOST[nm]
        m = dict(zip(d['free'], fr))
        for a in gs:
            for b in gs:
                if a is not b:
                    na, nb = a.a[1][0], b.a[1][0]
                    mm = dict(m)
                    mm[d['bound'][0]] = na
                    facts.append(implies(and_(le(I(0), na), lt(na, nb)), le(add(a, subst(d['canon'][0], mm)), b)))
                    facts.append(implies(le(na, nb), le(a, b)))
    return facts, us

def cases(x, n=6):
    """is x a choice between a few numbers"""
    if x.op == 'int':
        return n
    if x.op != 'ite' or n <= 0:
        return None
    n = cases(x.a[1], n - 1)
    return cases(x.a[2], n) if n is not None else None
def scaled(z, x, M):
    if x.op == 'int':
        return z * x.a
    return z3.If(M[x.a[0]], scaled(z, x.a[1], M), scaled(z, x.a[2], M))

class Low:
    """mode: 'abs' doubles abstracted to (nan, real); 'fp' doubles are IEEE with exact operations"""
    def __init__(self, mode):
        self.mode = mode
        self.memo = {}
        self.ax = []
        self.fn = {}
        if mode == 'abs':
            self.DS = z3.DeclareSort('Dbl')
            self.fnan = z3.Function('d_nan', self.DS, z3.BoolSort())
            self.fval = z3.Function('d_val', self.DS, z3.RealSort())
        else:
            self.DS = z3.Float64()
        self.consts = {}
        self.inexact = False
        self.bits = False           # a bitwise operation on operands of unknown sign was left uninterpreted
    def sort(self, s):
        return z3.IntSort() if s == 'I' else z3.BoolSort() if s == 'B' else self.DS
    def func(self, name, asorts, rsort):
        k = (name, tuple(asorts), rsort)
        f = self.fn.get(k)
        if f is None:
            f = z3.Function('%s/%s' % (name, ''.join(asorts)), *[self.sort(x) for x in asorts], self.sort(rsort))
            self.fn[k] = f
        return f
    def nan(self, a):
        return self.fnan(a) if self.mode == 'abs' else z3.fpIsNaN(a)
    def bound(self, z, lo, hi):
        if lo not in (None, -INF):
            self.ax.append(z >= lo)
        if hi not in (None, INF):
            self.ax.append(z <= hi)
    def __call__(self, t):
        # iterative post-order to avoid deep recursion
        st = [t]
        while st:
            x = st[-1]
            if x in self.memo:
                st.pop()
                continue
            ks = [y for y in kids(x) if y not in self.memo]
            if ks:
                st.extend(ks)
                continue
            self.memo[x] = self.low(x)
            st.pop()
        return self.memo[t]
    def low(self, t):
        op, a = t.op, t.a
        M = self.memo
        if op == 'int':
            return z3.IntVal(a)
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'var':
            z = z3.Const(a[0], self.sort(t.sort))
            if t.sort == 'I':
                self.bound(z, a[1], a[2])
            elif t.sort == 'D':
                self.newd(z)
            return z
        if op == 'poly':
            ss = []
            for m, c in a:
                if m == ():
                    ss.append(z3.IntVal(c))
                else:
                    p = None
                    for x in sorted(m, key=lambda x: cases(x) is not None):     # choices between numbers last: linear
                        p = M[x] if p is None else scaled(p, x, M) if cases(x) is not None else p * M[x]
                    ss.append(p if c == 1 else c * p)
            return z3.Sum(ss) if len(ss) > 1 else ss[0]
        if op == 'uf':
            f = self.func(a[0], [x.sort for x in a[1]], t.sort)
            z = f(*[M[x] for x in a[1]]) if a[1] else z3.Const(a[0], self.sort(t.sort))
            if t.sort == 'I':
                self.bound(z, a[2], a[3])
            elif t.sort == 'D':
                self.newd(z)
            return z
        if op == 'wrap':
            x, w, s = M[a[0]], a[1], a[2]
            n = 1 << w
            if s:
                h = n >> 1
                return (x + h) % n - h
            return x % n
        if op == 'fdiv':
            return M[a[0]] / z3.IntVal(a[1])
        if op == 'fmod':
            return M[a[0]] % z3.IntVal(a[1])
        if op == 'byte':
            return (M[a[0]] / z3.IntVal(1 << (8 * a[1]))) % 256
        if op == 'dbyte':
            z = self.func('dbyte%d' % a[1], ['D'], 'I')(M[a[0]])
            self.bound(z, 0, 255)
            return z
        if op == 'dfrom':
            z = self.func('dfrom', ['I'] * 8, 'D')(*[M[x] for x in a])
            self.newd(z)
            return z
        if op in ('sdiv', 'smod'):
            return M[a[0]] / M[a[1]] if op == 'sdiv' else M[a[0]] % M[a[1]]
        if op in ('tdiv', 'tmod'):
            self.inexact = True
            z = self.func(op, ['I', 'I'], 'I')(M[a[0]], M[a[1]])
            x, y = M[a[0]], M[a[1]]
            ab = lambda v: z3.If(v >= 0, v, -v)
            if op == 'tdiv':
                q = ab(x) / ab(y)
                return z3.If((x >= 0) == (y >= 0), q, -q)
            r = ab(x) % ab(y)
            return z3.If(x >= 0, r, -r)
        if op == 'pow2':
            lo, hi = a[0].rng
            z = self.func('pow2', ['I'], 'I')(M[a[0]])
            self.ax.append(z >= 1)
            if lo >= 0 and hi <= 64:
                for i in range(int(lo), int(hi) + 1):
                    self.ax.append(z3.Implies(M[a[0]] == i, z == (1 << i)))
            return z
        if op == 'shr':
            lo, hi = a[1].rng
            z = self.func('shr', ['I', 'I'], 'I')(M[a[0]], M[a[1]])
            x, k = M[a[0]], M[a[1]]
            if lo >= 0 and hi <= 64:
                for i in range(int(lo), int(hi) + 1):
                    self.ax.append(z3.Implies(k == i, z == x / z3.IntVal(1 << i)))
            else:
                xl, xh = a[0].rng
                B = max(int(abs(xl)).bit_length() if xl > -(1 << 70) else 80, int(abs(xh)).bit_length() if xh < (1 << 70) else 80) if xl > float('-inf') and xh < float('inf') else 80
                for i in range(0, min(B, 64) + 1):
                    self.ax.append(z3.Implies(k == i, z == x / z3.IntVal(1 << i)))
                if B <= 64:
                    self.ax.append(z3.Implies(k >= B, z == z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0))))
                    if lo < 0:
                        self.inexact = True
                else:
                    self.ax.append(z3.Implies(z3.And(x >= 0, k >= 0), z3.And(z >= 0, z <= x)))
                    self.inexact = True
            return z
        if op == 'band':
            x, y = M[a[0]], M[a[1]]
            hi = min(a[0].rng[1], a[1].rng[1])
            if a[0].rng[0] >= 0 and a[1].rng[0] >= 0 and hi < (1 << 16):
                n = int(hi).bit_length()
                return z3.Sum([z3.If(z3.And((x / (1 << i)) % 2 == 1, (y / (1 << i)) % 2 == 1), z3.IntVal(1 << i), z3.IntVal(0)) for i in range(n)] + [z3.IntVal(0)])
            self.inexact = self.bits = True
            return self.func('band', ['I', 'I'], 'I')(x, y)
        if op == 'not':
            return z3.Not(M[a[0]])
        if op == 'and':
            return z3.And(*[M[x] for x in a])
        if op == 'or':
            return z3.Or(*[M[x] for x in a])
        if op == 'iff':
            return M[a[0]] == M[a[1]]
        if op == 'ite':
            return z3.If(M[a[0]], M[a[1]], M[a[2]])
        if op == 'le0':
            return M[a[0]] <= 0
        if op == 'eq0':
            return M[a[0]] == 0
        if op == 'dbl':
            if self.mode != 'abs':
                return z3.fpBVToFP(z3.BitVecVal(a, 64), z3.Float64())
            z = z3.Const('dc!%x' % a, self.DS)
            v = dval(t)
            if v != v:
                self.ax.append(self.fnan(z))
            else:
                self.ax.append(z3.Not(self.fnan(z)))
                from fractions import Fraction
                r = Fraction(2) ** 1024 * (1 if v > 0 else -1) if abs(v) == INF else Fraction(v)
                self.ax.append(self.fval(z) == z3.RealVal(str(r.numerator)) / z3.RealVal(str(r.denominator)))
            for b, y in self.consts.items():
                if b != a:
                    self.ax.append(z != y)
            self.consts[a] = z
            return z
        if op == 'dop':
            xs = [M[x] for x in a[1]]
            if self.mode == 'abs':
                self.inexact = True
                z = self.func(a[0], ['D'] * len(xs), 'D')(*xs)
                self.newd(z)
                if a[0] == 'fneg':
                    self.ax.append(self.fnan(z) == self.fnan(xs[0]))
                    self.ax.append(self.fval(z) == -self.fval(xs[0]))
                if a[0] == 'fabs':
                    self.ax.append(self.fnan(z) == self.fnan(xs[0]))
                    self.ax.append(self.fval(z) == z3.If(self.fval(xs[0]) < 0, -self.fval(xs[0]), self.fval(xs[0])))
                return z
            rm = z3.RNE()
            n = a[0]
            if n == 'fadd': return z3.fpAdd(rm, xs[0], xs[1])
            if n == 'fsub': return z3.fpSub(rm, xs[0], xs[1])
            if n == 'fmul': return z3.fpMul(rm, xs[0], xs[1])
            if n == 'fdiv': return z3.fpDiv(rm, xs[0], xs[1])
            if n == 'fneg': return z3.fpNeg(xs[0])
            if n == 'fabs': return z3.fpAbs(xs[0])
            if n == 'fround': return z3.fpRoundToIntegral(z3.RNA(), xs[0])
            if n == 'ffloor': return z3.fpRoundToIntegral(z3.RTN(), xs[0])
            if n == 'fceil': return z3.fpRoundToIntegral(z3.RTP(), xs[0])
            if n == 'ftrunc': return z3.fpRoundToIntegral(z3.RTZ(), xs[0])
            if n == 'fsqrt': return z3.fpSqrt(rm, xs[0])
            self.inexact = True
            return self.func(a[0], ['D'] * len(xs), 'D')(*xs)
        if op == 'i2d':
            self.inexact = True
            z = self.func('i2d', ['I'], 'D')(M[a[0]])
            self.newd(z)
            self.ax.append(z3.Not(self.nan(z)))
            if self.mode == 'abs':
                lo, hi = a[0].rng
                if lo >= -(1 << 53) and hi <= 1 << 53:
                    self.ax.append(self.fval(z) == z3.ToReal(M[a[0]]))
            return z
        if op == 'd2i':
            self.inexact = True
            z = self.func('d2i', ['D'], 'I')(M[a[0]])
            if self.mode == 'abs':
                x = self.fval(M[a[0]])
                self.ax.append(z3.Implies(z3.And(z3.Not(self.fnan(M[a[0]])), x >= 0), z3.And(z3.ToReal(z) <= x, x < z3.ToReal(z) + 1)))
                self.ax.append(z3.Implies(z3.And(z3.Not(self.fnan(M[a[0]])), x <= 0), z3.And(z3.ToReal(z) >= x, x > z3.ToReal(z) - 1)))
            return z
        if op == 'dcmp':
            x, y = M[a[1]], M[a[2]]
            if self.mode == 'abs':
                ok = z3.And(z3.Not(self.fnan(x)), z3.Not(self.fnan(y)))
                u, v = self.fval(x), self.fval(y)
                return z3.And(ok, u < v if a[0] == 'lt' else u <= v if a[0] == 'le' else u == v)
            return z3.fpLT(x, y) if a[0] == 'lt' else z3.fpLEQ(x, y) if a[0] == 'le' else z3.fpEQ(x, y)
        if op == 'same':
            return M[a[0]] == M[a[1]]
        raise ValueError(op)
    def newd(self, z):
        if self.mode == 'abs':
            b = z3.RealVal(str(2 ** 1024))
            self.ax.append(z3.And(self.fval(z) <= b, self.fval(z) >= -b))

def _solve(low, ts, timeout):
    zs = [low(t) for t in ts]
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*low.ax)
    s.add(*zs)
    t0 = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    return r, s

def _model(low, s):
    m = s.model()
    out = {}
    for t, z in low.memo.items():
        if t.op in ('var', 'uf') and t.sort in ('I', 'B', 'D'):
            try:
                v = m.eval(z, model_completion=False)
                if low.mode == 'abs' and t.sort == 'D':
                    v = m.eval(low.fval(z), model_completion=True)
                out[show(t)] = str(v)[:60]
            except Exception:
                pass
    return out

def needs_fp(ts):
    seen, st = set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ('dop', 'i2d', 'd2i'):
            return True
        st.extend(kids(t))
    return False

def by_bound(hyps, goal):
    """does one hypothesis p <= 0, and the ranges of the terms, give the goal q <= 0"""
    if goal.op == 'and':
        return all(by_bound(hyps, g) for g in goal.a)
    if goal.op == 'or':
        return any(by_bound(hyps, g) for g in goal.a)
    if goal.op != 'le0':
        return False
    for h in hyps:
        if h.op == 'le0' and sub(goal.a[0], h.a[0]).rng[1] <= 0:
            return True
    return False

def check(assumptions, goal, univs=(), pool=(), timeout=10.0, fp=True, quick=False):
    """prove assumptions => goal.  Returns (status, info): 'proved', 'refuted' (definite), 'maybe' (sat in an
    abstraction or with uninstantiated universals), 'unknown'"""
    if goal is TRUE:
        STATS['syntactic'] += 1
        return 'proved', 'syntactic'
    ng = not_(goal)
    g = and_(*assumptions, ng) if len(assumptions) < 60 else None
    if g is FALSE:
        STATS['syntactic'] += 1
        return 'proved', 'syntactic'
    if by_bound([x for a in assumptions for x in (a.a if a.op == 'and' else [a])], goal):
        STATS['syntactic'] += 1
        return 'proved', 'syntactic'
    ts = list(assumptions) + [ng]
    gf, gu = expand(ts, univs)
    if gf or gu or univs:                      # without definitions and universals first
        r, s = _solve(Low('abs'), ts, min(timeout, 0.5))
        if r == z3.unsat:
            STATS['z3'] += 1
            return 'proved', 'z3'
    ts += [f for f in gf if f is not TRUE]
    univs = list(univs) + gu
    inst = instantiate(ts, univs, pool, limit=200 if quick else 900) if univs else []
    if inst and not quick:
        gf, gu = expand(inst, ())
        known = set(ts)
        gf = [f for f in gf if f not in known and f is not TRUE]
        if gf or gu:
            ts += gf
            univs = univs + [u for u in gu if u not in univs]
            inst = instantiate(ts, univs, pool)
    ts = [t for t in ts + inst if t is not TRUE]
    low = Low('abs')
    r, s = _solve(low, ts, timeout)
    if r == z3.unsat:
        STATS['z3'] += 1
        return 'proved', 'z3'
    res = ('maybe' if (low.inexact or univs) else 'refuted', _model(low, s)) if r == z3.sat else ('unknown', 'z3: ' + s.reason_unknown())
    if r == z3.sat and low.bits:
        return 'unknown', 'bitwise operation left uninterpreted'
    if fp and low.inexact and needs_fp(ts):
        low2 = Low('fp')
        try:
            r2, s2 = _solve(low2, ts, timeout * 2)
        except z3.Z3Exception as e:
            return 'unknown', res[1]
        if r2 == z3.unsat:
            STATS['z3-fp'] += 1
            return 'proved', 'z3-fp'
        if r2 == z3.sat:
            return ('maybe' if (low2.inexact or univs) else 'refuted'), _model(low2, s2)
        return 'unknown', res[1]          # the abstraction has a model, the exact semantics ran out of time
    if r == z3.unknown and not quick:
        c = cvc5_try(s, timeout)
        if c == 'unsat':
            STATS['cvc5'] += 1
            return 'proved', 'cvc5'
    return res

def cvc5_try(s, timeout):
    import subprocess
    try:
        txt = '(set-logic ALL)\n' + s.to_smt2()
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000)], input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout + 5)
        return r.stdout.strip().split('\n')[0]
    except Exception:
        return 'error'

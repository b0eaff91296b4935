"""Types, symbolic values of a type, class structure, and the entry point of the models of external functions."""
from .term import *
from .values import *
import re

MAXLEN = (1 << 31) - 1
REFMAX = 1 << 59
EMPTYMAP = ('empty', None, ())

_nm = {}
def norm(q):
    r = _nm.get(q)
    if r is None:
        s = q.replace('operator<<', 'operator@L').replace('operator->', 'operator@A').replace('operator<=', 'operator@M') \
             .replace('operator>=', 'operator@N').replace('operator>>', 'operator@R').replace('operator<', 'operator@l').replace('operator>', 'operator@g')
        o, d = '', 0
        for c in s:
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif d == 0:
                o += c
        for a, b in (('@L', '<<'), ('@R', '>>'), ('@A', '->'), ('@l', '<'), ('@g', '>'), ('@M', '<='), ('@N', '>=')):
            o = o.replace(a, b)
        r = _nm[q] = o
    return r

STREAMS = ('std::basic_istream', 'std::basic_ostream', 'std::basic_iostream', 'std::basic_stringstream', 'std::basic_istringstream',
           'std::basic_ostringstream', 'std::basic_fstream', 'std::basic_ios', 'std::basic_ifstream', 'std::basic_ofstream', 'std::ios_base')
U8, I8 = ['int', 8, False], ['int', 8, True]

def tkey(t):
    return repr(t)

class Enum:
    def __init__(self, n, key, isset):
        self.n, self.key, self.isset = n, key, isset

class Types:
    def __init__(self, prog):
        self.prog = prog
        self._fields, self._ft, self._cid = {}, {}, {}
        self.enums = {}
        self.enum_names = {}
        self.injective = {}      # uf name of a reference family -> True
        self.keyfam = {}
        from . import stdlib
        self.std = stdlib.Std(self)

    # -------------------------------------------------------------- classes
    def bases(self, cls):
        r = self.prog.recs.get(cls)
        return [b[2] for b in r['bases']] if r else []

    def fields(self, cls):
        r = self._fields.get(cls)
        if r is None:
            rec = self.prog.recs.get(cls)
            if rec is None:
                r = []
            else:
                r = []
                for b in rec['bases']:
                    for f in self.fields(b[2]):
                        if f not in r:
                            r.append(f)
                for f in rec['fields']:
                    k = cls + '::' + f['n']
                    r.append((k, f['t']))
                    self._ft[k] = f['t']
            if cls.startswith('lazperf::reader::'):
                r = [('%reader', ['int', 64, False])]
            if cls in ('lazperf::las_compressor', 'lazperf::las_decompressor', 'lazperf::InFileStream', 'lazperf::OutFileStream'):
                r = [('%codec', ['int', 64, False])]
            if cls == 'std::pair':
                r = []
            self._fields[cls] = r
        return r

    def fkey(self, decl, name):
        if decl.startswith(('std::pair<', 'std::_Pair', 'std::__pair')) and name in ('first', 'second'):
            return name
        return decl + '::' + name

    def ftype(self, key):
        t = self._ft.get(key)
        if t is None and '::' in key:
            self.fields(key.rsplit('::', 1)[0])
            t = self._ft.get(key)
        return t

    def ancestors(self, cls):
        r = [cls]
        for b in self.bases(cls):
            r += self.ancestors(b)
        return r

    def subclasses(self, cls):
        r = [cls]
        for d in self.prog.derived.get(cls, []):
            for x in self.subclasses(d):
                if x not in r:
                    r.append(x)
        return r

    def cid(self, cls):
        i = self._cid.get(cls)
        if i is None:
            names = sorted(self.prog.recs)
            for j, n in enumerate(names):
                self._cid.setdefault(n, j + 1)
            i = self._cid.setdefault(cls, len(self._cid) + 1000)
        return i

    def owner(self, fid):
        q = self.prog.funs[fid]['q'] if fid in self.prog.funs else fid.split('(')[0]
        f = self.prog.funs.get(fid)
        if f and f.get('cls'):
            return f['cls'][2] if isinstance(f['cls'], list) else f['cls']
        return q.rsplit('::', 1)[0]

    def overriders(self, cls, fid):
        """[(concrete class, final overrider)] for a virtual call through cls"""
        out = []
        for c in self.subclasses(cls):
            f = self.final_overrider(c, fid)
            if f is not None and self.prog.funs.get(f, {}).get('body') is not None:
                out.append((c, f))
        if not out:
            raise Limit('no overrider of ' + fid)
        return out

    def final_overrider(self, cls, fid):
        def overs(c):
            r = self.prog.recs.get(c)
            for v in (r or {}).get('virt', []):
                if v['f'] == fid or fid in (v.get('over') or []) or any(o == fid for o in v.get('over') or []):
                    return v['f']
                # transitive overriding
                seen, st = set(), list(v.get('over') or [])
                while st:
                    o = st.pop()
                    if o == fid:
                        return v['f']
                    if o in seen:
                        continue
                    seen.add(o)
                    oc = o.split('(')[0].rsplit('::', 1)[0]
                    for w in (self.prog.recs.get(oc) or {}).get('virt', []):
                        if w['f'] == o:
                            st += w.get('over') or []
            for b in self.bases(c):
                x = overs(b)
                if x:
                    return x
            return None
        return overs(cls) or fid

    def user_copy(self, cls):
        for f in self.prog.byname.get(cls + '::' + cls.split('::')[-1], []):
            o = self.prog.funs[f]
            if o.get('copy') and not o.get('implicit') and not o.get('defaulted'):
                return f
        return None

    def slice(self, v, cls):
        if v.cls == cls or cls not in self.prog.recs:
            return v
        fs = [f for f, t in self.fields(cls)]
        if all(f in v.f for f in fs):
            return Rec(cls, {f: v.f[f] for f in fs})
        return v

    # -------------------------------------------------------------- type families
    def is_std(self, t):
        return t[0] == 'rec' and not (t[2].startswith('copc') or t[2].startswith('lazperf') or t[2].startswith('(lambda)'))

    def fam(self, t):
        return norm(t[1]) if t[0] == 'rec' else None

    def is_stream(self, t):
        return t[0] == 'rec' and norm(t[1]) in STREAMS

    # -------------------------------------------------------------- symbolic values
    def sym(self, ex, t, name, args=()):
        k = t[0]
        args = tuple(args)
        if k == 'int':
            w, s = t[1], t[2]
            return uf(name, args, 'I', -(1 << (w - 1)) if s else 0, (1 << (w - (1 if s else 0))) - 1)
        if k == 'bool':
            return uf(name, args, 'B')
        if k == 'flt':
            v = uf(name, args, 'D')
            return v if t[1] == 64 else dop('f32', v)
        if k == 'void':
            return None
        if k in ('ptr', 'ref'):
            return uf(name, args, 'I', 1, REFMAX)
        if k == 'arr':
            return lit([self.sym(ex, t[1], name, args + (I(i),)) for i in range(int(t[2]))])
        if k == 'rec':
            f = norm(t[1])
            if f in ('std::vector', 'std::basic_string'):
                n = uf(name + '.n', args, 'I', 0, MAXLEN)
                return tab(n, lambda k: self.sym(ex, t[3][0], name + '.e', args + (k,)))
            if f == 'std::array':
                return lit([self.sym(ex, t[3][0], name, args + (I(i),)) for i in range(self.array_n(t))])
            if f in ('std::shared_ptr', 'std::unique_ptr'):
                return uf(name, args, 'I', 1, REFMAX)
            if f == 'std::optional':
                return Opt(uf(name + '.has', args, 'B'), self.sym(ex, t[3][0], name + '.val', args))
            if f == 'std::pair':
                return Rec('std::pair', {'first': self.sym(ex, t[3][0], name + '.1', args), 'second': self.sym(ex, t[3][1], name + '.2', args)})
            if f in ('std::map', 'std::unordered_map'):
                return MapV(('sym', name, args), (), t[3][0], t[3][1])
            if f == 'std::set':
                return MapV(('sym', name, args), (), t[3][0], ['bool'])
            if f in STREAMS:
                return self.sym_stream(ex, name, args)
            if f == 'std::fpos':
                return uf(name, args, 'I', -1, (1 << 62))
            if f == 'std::function':
                return Opaque('function')
            if t[2] in self.prog.recs and not self.is_std(t):
                return Rec(t[2], {fk: self.sym(ex, ft, name + '.' + fk.split('::')[-1], args) for fk, ft in self.fields(t[2])})
            return Opaque(f)
        return Opaque(str(t))

    def array_n(self, t):
        return int(t[3][1][1] if isinstance(t[3][1], list) else t[3][1])

    def sym_stream(self, ex, name, args):
        n = uf(name + '.len', args, 'I', 0, 1 << 60)
        ex.fact(le(uf(name + '.p', args, 'I', 0, 1 << 60), n))
        return Rec('%stream', {'data': tab(n, lambda k: uf(name + '.byte', args + (k,), 'I', 0, 255)),
                               'g': uf(name + '.g', args, 'I', 0, 1 << 60), 'p': uf(name + '.p', args, 'I', 0, 1 << 60),
                               'fail': FALSE, 'open': uf(name + '.open', args, 'B')})

    def sym_field(self, ex, key, ref):
        if key == '%dyn':
            return uf('H.%dyn', (ref,), 'I', 0, 1 << 30)
        if key == '%stream':
            return self.sym_stream(ex, 'H.%stream', (ref,))
        if key.startswith('%'):
            return self.std.sym_extra(ex, key, ref)
        return self.sym(ex, self.ftype(key), 'H.' + key, (ref,))

    # -------------------------------------------------------------- defaults
    def default(self, ex, st, t):
        """default-initialised object"""
        k = t[0]
        if k == 'int':
            return ex.fresh('uninit', 'I', -(1 << (t[1] - 1)) if t[2] else 0, (1 << (t[1] - (1 if t[2] else 0))) - 1)
        if k == 'bool':
            return ex.fresh('uninit', 'B')
        if k == 'flt':
            return ex.fresh('uninit', 'D')
        if k == 'ptr':
            return ex.fresh('uninit', 'I', 0, REFMAX)
        if k == 'arr':
            return lit([self.default(ex, st, t[1]) for _ in range(int(t[2]))])
        if k == 'rec':
            v = self.std_empty(ex, t, lambda x: self.default(ex, st, x))
            if v is not None:
                return v
            if t[2] in self.prog.recs and not self.is_std(t):
                cls = t[2]
                fid = '%s::%s()' % (cls, cls.split('::')[-1])
                f = self.prog.funs.get(fid)
                if f is not None and f.get('body') is not None:
                    return ex.construct(st, fid, cls, [])
                return self.default_fields(ex, st, cls, None)
        raise Limit('default value of %s' % (t,))

    def std_empty(self, ex, t, elem):
        f = norm(t[1])
        if f in ('std::vector', 'std::basic_string'):
            return Seq()
        if f == 'std::array':
            return lit([elem(t[3][0]) for _ in range(self.array_n(t))])
        if f in ('std::shared_ptr', 'std::unique_ptr'):
            return I(0)
        if f == 'std::optional':
            return Opt(FALSE, self.sym(ex, t[3][0], '%noopt', ()))
        if f in ('std::map', 'std::unordered_map'):
            return MapV(EMPTYMAP, (), t[3][0], t[3][1])
        if f == 'std::set':
            return MapV(EMPTYMAP, (), t[3][0], ['bool'])
        if f in STREAMS:
            return Rec('%stream', {'data': Seq(), 'g': I(0), 'p': I(0), 'fail': FALSE, 'open': FALSE})
        if f in ('std::allocator', 'std::less', 'std::hash', 'std::exception', 'std::random_device'):
            return Opaque(f)
        if f == 'std::pair':
            return Rec('std::pair', {'first': elem(t[3][0]), 'second': elem(t[3][1])})
        return None

    def default_fields(self, ex, st, cls, e):
        """implicit default constructor; e: the constructor expression (value-initialisation zeroes first)"""
        zero = bool(e and e.get('zeroinit'))
        rec = self.prog.recs.get(cls)
        if rec is None:
            raise Limit('default constructor of ' + cls)
        special = self.std.lazperf_default(ex, st, cls)
        if special is not None:
            return special
        f = {}
        for b in rec['bases']:
            if not self.fields(b[2]):
                continue
            v = self.default(ex, st, b) if not zero else self.zero(ex, b)
            f.update(v.f)
        from .exec import Frame
        for fd in rec['fields']:
            k = cls + '::' + fd['n']
            if fd.get('init') is not None:
                ex.frames.append(Frame({'fun': cls, 'ret': ['void']}, None))
                try:
                    f[k] = self.adapt(ex, st, ex.ev(st, fd['init']), fd['t'])
                finally:
                    ex.frames.pop()
            elif zero:
                f[k] = self.zero(ex, fd['t'])
            else:
                f[k] = self.default(ex, st, fd['t'])
        return Rec(cls, f)

    def zero(self, ex, t):
        k = t[0]
        if k == 'int' or k == 'ptr' or k == 'null':
            return I(0)
        if k == 'bool':
            return FALSE
        if k == 'flt':
            return D(0.0)
        if k == 'arr':
            return lit([self.zero(ex, t[1]) for _ in range(int(t[2]))])
        if k == 'rec':
            v = self.std_empty(ex, t, lambda x: self.zero(ex, x))
            if v is not None:
                return v
            if norm(t[1]) == 'std::fpos':
                return I(0)
            if t[2] in self.prog.recs:
                sp = self.std.lazperf_default(ex, None, t[2])
                if sp is not None:
                    return sp
                return Rec(t[2], {fk: self.zero(ex, ft) for fk, ft in self.fields(t[2])})
        raise Limit('zero of %s' % (t,))

    def raw(self, ex, cls):
        """storage of an object whose constructor has not run"""
        def v(t):
            k = t[0]
            if k in ('int', 'bool', 'flt', 'ptr'):
                return self.default(ex, None, t)
            if k == 'ref':
                return I(0)
            if k == 'arr':
                return lit([v(t[1]) for _ in range(int(t[2]))])
            s = self.std_empty(ex, t, v)
            if s is not None:
                return s
            if t[2] in self.prog.recs and not self.is_std(t):
                return Rec(t[2], {fk: v(ft) for fk, ft in self.fields(t[2])})
            return Opaque(t[1])
        return Rec(cls, {fk: v(ft) for fk, ft in self.fields(cls)})

    def adapt(self, ex, st, v, t):
        """representation changes on initialisation from a value of a compatible type"""
        if t[0] == 'rec':
            f = norm(t[1])
            if f == 'std::basic_string' and isinstance(v, Str):
                return bytes_lit(v.b)
            if f == 'std::optional' and not isinstance(v, Opt) and v is not None:
                return Opt(TRUE, v)
            if isinstance(v, Rec) and t[2] in self.prog.recs and v.cls != t[2]:
                return self.slice(v, t[2])
        elif t[0] == 'arr' and isinstance(v, Str):
            n = int(t[2])
            b = (v.b + b'\0' * n)[:n]
            return bytes_lit(b) if t[1][2] else lit([I(x) for x in b])
        elif isinstance(v, Term):
            if t[0] == 'bool' and v.sort == 'I':
                return ne(v, I(0))
            if t[0] == 'int' and v.sort == 'B':
                return ite(v, I(1), I(0))
        return v

    def initlist(self, ex, st, e):
        t = e['t']
        a = e.get('a') or e.get('args') or []
        if t[0] == 'arr':
            n = int(t[2])
            vals = [self.adapt(ex, st, ex.ev(st, x), t[1]) for x in a]
            while len(vals) < n:
                vals.append(self.adapt(ex, st, ex.ev(st, e['fill']), t[1]) if e.get('fill') else self.zero(ex, t[1]))
            return lit(vals)
        if t[0] == 'rec':
            f = norm(t[1])
            if f == 'std::array':
                if len(a) == 1 and a[0]['t'][0] == 'arr':
                    return ex.ev(st, a[0])
                vals = [self.adapt(ex, st, ex.ev(st, x), t[3][0]) for x in a]
                return lit(vals + [self.zero(ex, t[3][0]) for _ in range(self.array_n(t) - len(vals))])
            if len(a) == 1 and a[0]['t'][0] == 'rec' and a[0]['t'][2] == t[2]:
                return ex.ev(st, a[0])
            if t[2] in self.prog.recs:
                rec = self.prog.recs[t[2]]
                r, i = {}, 0
                for b in rec['bases']:
                    v = ex.ev(st, a[i]) if i < len(a) else self.zero(ex, b)
                    r.update(v.f)
                    i += 1
                for fd in rec['fields']:
                    k = t[2] + '::' + fd['n']
                    r[k] = self.adapt(ex, st, ex.ev(st, a[i]), fd['t']) if i < len(a) else self.zero(ex, fd['t'])
                    i += 1
                return Rec(t[2], r)
        if len(a) == 1:
            return ex.ev(st, a[0])
        if not a:
            return self.zero(ex, t)
        raise Limit('initialiser list of %s' % (t,))

    def global_lv(self, ex, st, name, g, e):
        cid = 'g:' + name
        if name.startswith('std::cout') or name.startswith('std::cerr'):
            st.cells.setdefault(cid, Opaque('cout'))
            return ('cell', cid)
        if name in ('std::nullopt', 'std::ignore'):
            st.cells.setdefault(cid, Opt(FALSE, Opaque()))
            return ('cell', cid)
        if cid not in st.cells:
            if e.get('constv') is not None and not isinstance(e['constv'], bool):
                v = I(int(e['constv']))
            elif g is not None and g.get('init') is not None:
                from .exec import Frame, State
                ex.frames.append(Frame({'fun': name, 'ret': ['void']}, None))
                try:
                    v = self.adapt(ex, st, ex.ev(st, g['init']), g['t'])
                finally:
                    ex.frames.pop()
            else:
                v = self.sym(ex, e['t'], 'G.' + name, ())
            st.cells[cid] = v
        return ('cell', cid)

    # -------------------------------------------------------------- iteration and inverse functions
    def inverse(self, ex, name, pre):
        if name in self.injective:
            pre = tuple(pre)
            k = var('j!inv', 'I', 0, None)
            ex.univ([k], implies(lt(k, I(1 << 40)), eq(uf(name + '.inv', pre + (uf(name, pre + (k,), 'I', 1, REFMAX),), 'I', 0, 1 << 48), k)), 'distinct ' + name)
            return lambda r: uf(name + '.inv', pre + (r,), 'I', 0, 1 << 48)
        return None

    def key_inverse(self, ex, fk, fr, k):
        if all(x.op == 'uf' and x.a[0] in self.keyfam for x in fk) and len({x.a[1] for x in fk}) == 1:
            nm = self.keyfam[fk[0].a[0]]
            args = fk[0].a[1]
            if args and args[-1] is k and all(self.keyfam[x.a[0]] == nm for x in fk):
                j = uf(nm + '.idx', args[:-1] + tuple(fr), 'I', 0, 1 << 48)
                return j, and_(*[eq(subst(x, {k: j}), y) for x, y in zip(fk, fr)])
        return None

    def enumerate(self, ex, st, m):
        """the elements of a map or set in iteration order"""
        whole = not m.ups and m.base[0] == 'sym'     # what is there initially: a function of where it is
        key = ('at', m.base[1], tuple(x.sort for x in m.base[2]), tuple(vkey(x) for x in m.base[2])) if whole else vkey(m)
        en = self.enums.get(key)
        if en is None and whole:
            nm = self.enum_names.setdefault(key[:3], 'enum@%d' % len(self.enum_names))
            self.keyfam_add(nm, m.kt)
            free = tuple(m.base[2])
            en = Enum(uf(nm + '.n', free, 'I', 0, MAXLEN), lambda i: self.sym(ex, m.kt, nm + '.key', free + (i,)), m.vt == ['bool'])
            en.name, en.free = nm, free
            self.enums[key] = en
        if en is None:
            nm = 'enum#%d' % len(self.enums)
            free, seen = [], set()
            for t in tvals(m):
                for v in atoms(t):
                    if v.op == 'var' and v not in seen:
                        seen.add(v)
                        free.append(v)
            free = tuple(sorted([v for v in free if v in ex.loopvars], key=lambda v: v.id))
            n = uf(nm + '.n', free, 'I', 0, MAXLEN)
            comps = []
            self.keyfam_add(nm, m.kt)
            isset = m.vt == ['bool']
            def keyf(i):
                return self.sym(ex, m.kt, nm + '.key', free + (i,))
            en = Enum(n, keyf, isset)
            en.name, en.free = nm, free
            self.enums[key] = en
        done = ex.__dict__.setdefault('enum_facts', set())
        if key not in done:
            done.add(key)
            i = fresh('i', 'I', 0, None)
            ki = en.key(i)
            idx = lambda kk: uf(en.name + '.idx', en.free + tuple(flat_key(kk)), 'I', 0, 1 << 48)
            rng = and_(le(I(0), i), lt(i, en.n))
            ex.univ([i], implies(rng, and_(ex.map_has(st, m, ki), eq(idx(ki), i))), 'enumeration lists members once')
            kk = self.qkey(ex, m.kt)
            fk = flat_key(kk)
            j = idx(kk)
            ex.univ(fk, implies(ex.map_has(st, m, kk), and_(le(I(0), j), lt(j, en.n), key_eq(en.key(j), kk))), 'enumeration lists every member')
            if m.kt[0] == 'int':
                j2 = fresh('j', 'I', 0, None)
                ex.univ([i, j2], implies(and_(le(I(0), i), lt(i, j2), lt(j2, en.n)), lt(en.key(i), en.key(j2))), 'ordered')
        return en

    def qkey(self, ex, t):
        if t[0] == 'int':
            return fresh('qk', 'I', -(1 << (t[1] - 1)) if t[2] else 0, (1 << (t[1] - (1 if t[2] else 0))) - 1)
        if t[0] == 'rec' and norm(t[1]) == 'std::shared_ptr':
            return fresh('qk', 'I', 1, None)
        if t[0] == 'rec' and t[2] in self.prog.recs:
            return Rec(t[2], {k: self.qkey(ex, ft) for k, ft in self.fields(t[2])})
        raise Limit('map key type')

    def keyfam_add(self, nm, kt):
        def go(t, n):
            if t[0] == 'rec' and t[2] in self.prog.recs and not self.is_std(t):
                for k, ft in self.fields(t[2]):
                    go(ft, n + '.' + k.split('::')[-1])
            else:
                self.keyfam[n] = nm
        go(kt, nm + '.key')

    def it_deref(self, ex, st, it):
        if it.kind == 'vec':
            s = ex.read(st, it.lv)
            ex.ob(st, 'bounds', and_(le(I(0), it.pos), lt(it.pos, s.n)), 'iterator dereferenced inside its range')
            return ('idx', it.lv, it.pos)
        raise Limit('iterator ' + it.kind)

    # -------------------------------------------------------------- casts and calls
    def dyncast(self, ex, st, v, t):
        cls = t[1][2]
        subs = self.subclasses(cls)
        if isinstance(v, Ptr):
            r = ex.read(st, v.lv)
            return v if isinstance(r, Rec) and r.cls in subs else I(0)
        dyn = ex.heap_read(st, '%dyn', v)
        return ite(and_(ne(v, I(0)), or_(*[eq(dyn, I(self.cid(c))) for c in subs])), v, I(0))

    def std_call(self, ex, st, e):
        return self.std.call(ex, st, e)

    def std_ctor(self, ex, st, e):
        return self.std.ctor(ex, st, e)

    def implicit_call(self, ex, st, fid, this, args, e):
        """implicit copy or move assignment"""
        q = e.get('q') or ''
        if q.endswith('::operator=') and len(args) == 1 and this is not None:
            cls = e['cls'][2]
            src = args[0]
            if isinstance(src, tuple):
                v = ex.read(st, src)
            else:
                v = src
            if isinstance(v, Rec) and v.cls != cls:
                v = self.slice(v, cls)
            if this[0] == 'obj':
                this = ('obj', this[1], cls)
                ex.write(st, this, v)
            else:
                cur = ex.read(st, this)
                if isinstance(cur, Rec) and cur.cls != cls:
                    g = dict(cur.f)
                    g.update(v.f)
                    v = Rec(cur.cls, g)
                ex.write(st, this, v)
            return this
        return NotImplemented

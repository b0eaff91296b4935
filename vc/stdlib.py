"""Models of the standard library and of the lazperf codec (the trusted contracts on dependencies)."""
from .term import *
from .values import *
from .types import norm, U8, I8, MAXLEN, REFMAX, EMPTYMAP, STREAMS

SZ = {'int': lambda t: t[1] // 8, 'flt': lambda t: t[1] // 8, 'bool': lambda t: 1}

def uchar(x):
    return wrap(x, 8, False)
def schar(x):
    return wrap(x, 8, True)

def decimal(v):
    """the characters of a number (default formatting), kept abstract"""
    k = fresh('dec', 'I', 0, None)
    nm = 'dec' if v.sort == 'I' else 'decd'
    return Seq([Tab(uf(nm + '.n', (v,), 'I', 1, 24), k, uf(nm + '.c', (v, k), 'I', 1, 127))])
def smap(s, f):
    """elementwise image of a sequence"""
    out = []
    for p in s.parts:
        if isinstance(p, Lit):
            out.append(Lit([f(x) for x in p.vals]))
        elif isinstance(p, Tab):
            out.append(Tab(p.n, p.k, f(p.body)))
        elif isinstance(p, Flat):
            out.append(Flat(p.n, p.k, smap(p.body, f)))
        elif isinstance(p, Alt):
            out.append(Alt(p.c, smap(p.a, f), smap(p.b, f)))
        else:
            raise Limit('map over an unknown sequence')
    return Seq(out)

class Std:
    def __init__(self, T):
        self.T = T
        self.special = {}
        from . import lazmodel
        self.laz = lazmodel.Laz(self)

    # ------------------------------------------------------------ helpers
    def seq(self, ex, st, lv):
        s = ex.read(st, lv)
        if not isinstance(s, Seq):
            raise Limit('not a sequence: %s' % type(s).__name__)
        return s

    def seq_eq(self, ex, a, b):
        if vkey(a) == vkey(b):
            return TRUE
        def elem_eq(x, y):
            if isinstance(x, Term):
                return eq(x, y) if x.sort == 'I' else iff(x, y) if x.sort == 'B' else dcmp('eq', x, y)
            raise Limit('element comparison')
        for x, y in ((a, b), (b, a)):
            if x.n.op == 'int' and x.n.a <= 64:
                n = x.n.a
                if y.n.op == 'int' and y.n.a != n:
                    return FALSE
                if not y.parts:
                    return eq(x.n, I(0))
                try:
                    return and_(eq(y.n, x.n), *[elem_eq(seq_get(x, I(i)), seq_get(y, I(i))) for i in range(n)])
                except Limit:
                    pass
        k = fresh('k', 'I', 0, None)
        return and_(eq(a.n, b.n), ex.forall(a.n, k, elem_eq(seq_get(a, k), seq_get(b, k))))

    def cstr_len(self, ex, s, pos, n):
        """strnlen of the characters from pos (n: bound)"""
        k = fresh('k', 'I', 0, None)
        c, w = ex.exists(n, k, eq(seq_get(s, add(pos, k)), I(0)))
        return ite(c, w, n)

    def chars(self, ex, st, v):
        """characters designated by a char pointer up to the terminator: Seq of signed chars"""
        if isinstance(v, Str):
            return bytes_lit(v.b)
        if isinstance(v, Ptr) and v.lv[0] == 'idx':
            s = self.seq(ex, st, v.lv[1])
            if len(s.parts) >= 1 and v.lv[2] is I(0) and getattr(s, 'cstr', None) is not None:
                return s.cstr
            L = self.cstr_len(ex, s, v.lv[2], sub(s.n, v.lv[2]))
            ex.ob(st, 'bounds', lt(L, sub(s.n, v.lv[2])), 'character array is terminated')
            return seq_slice(s, v.lv[2], L)
        if isinstance(v, VIte):
            return seq_ite(v.c, self.chars(ex, st, v.a), self.chars(ex, st, v.b))
        raise Limit('characters of %s' % type(v).__name__)

    def rng(self, ex, st, a, b):
        """sequence between two iterators or pointers"""
        lva, pa = self.pos(a)
        lvb, pb = self.pos(b)
        if lvkey(lva) != lvkey(lvb):
            raise Limit('range over two containers')
        s = self.seq(ex, st, lva)
        ex.ob(st, 'bounds', and_(le(I(0), pa), le(pa, pb), le(pb, s.n)), 'iterator range inside its container')
        if s.n.op == 'int' and pa is I(0) and pb is s.n:
            return s
        return seq_slice(s, pa, sub(pb, pa))

    def pos(self, x):
        if isinstance(x, It) and x.kind == 'vec':
            return x.lv, x.pos
        if isinstance(x, Ptr) and x.lv[0] == 'idx':
            return x.lv[1], x.lv[2]
        raise Limit('iterator %s' % type(x).__name__)

    def overwrite(self, ex, st, dst, vals, what='copy'):
        """write the sequence vals through an iterator or pointer"""
        if isinstance(dst, BackIt):
            if dst.kind == 'ostream':
                self.stream_write(ex, st, dst.lv, smap(vals, uchar))
                return dst
            s = self.seq(ex, st, dst.lv)
            ex.write(st, dst.lv, cat(s, vals))
            return dst
        lv, p = self.pos(dst)
        s = self.seq(ex, st, lv)
        n = vals.n
        ex.ob(st, 'bounds', and_(le(I(0), p), le(add(p, n), s.n)), what + ' stays inside the destination')
        ex.write(st, lv, self.replace(s, p, n, vals))
        r = It('vec', lv, add(p, n)) if isinstance(dst, It) else Ptr(('idx', lv, add(p, n)))
        return r

    def replace(self, s, p, n, vals):
        if n is I(0):
            return s
        if p is I(0) and s.n is n:
            return vals
        if s.n.op == 'int' and p.op == 'int' and n.op == 'int':
            return cat(seq_slice(s, I(0), p), vals, seq_slice(s, add(p, n), sub(s.n, add(p, n))))
        if s.n.op == 'int' and s.n.a <= 64 and p.op == 'int':
            out = []
            for i in range(s.n.a):
                o = seq_get(s, I(i))
                j = sub(I(i), p)
                if j.rng[1] < 0 or lt(j, n) is FALSE:
                    out.append(o)
                else:
                    out.append(vite(lt(j, n), seq_get(vals, j), o))
            return lit(out)
        end = add(p, n)
        pre = Seq() if p is I(0) else seq_slice(s, I(0), p)
        post = Seq() if end is s.n else seq_slice(s, end, sub(s.n, end))
        return cat(pre, vals, post)

    # ------------------------------------------------------------ streams
    def stream_write(self, ex, st, lv, data):
        s = ex.read(st, lv)
        if isinstance(s, Opaque):
            return
        n, p, L = s.f['data'].n, s.f['p'], data.n
        d = s.f['data']
        if s.f['fail'] is TRUE:
            return
        if p is n:
            nd = cat(d, data)
        elif L is I(0):
            nd = d
        elif ex.decide(st, le(add(p, L), n)):
            nd = self.replace(d, p, L, data)
        elif ex.decide(st, eq(p, n)):
            nd = cat(d, data)
        elif ex.decide(st, le(p, n)) and ex.decide(st, le(n, add(p, L))):
            nd = cat(seq_slice(d, I(0), p), data)
        elif ex.decide(st, le(p, n)):
            nd = cat(seq_slice(d, I(0), p), data, Seq([Alt(lt(add(p, L), n), seq_slice(d, add(p, L), clamp0(sub(n, add(p, L)))), Seq())]))
        else:
            raise Limit('stream write past the end')
        new = s.set('data', nd).set('p', add(p, L))
        ex.write(st, lv, vite(s.f['fail'], s, new) if s.f['fail'] is not FALSE else new)

    def whole(self, s):
        if isinstance(s, Rec) and 'cut' in s.f:
            raise Limit('the end of a stream is used in a loop that writes before it')

    def stream_read(self, ex, st, lv, n):
        """-> (bytes available: Seq of unsigned bytes, count); updates position and state"""
        s = ex.read(st, lv)
        self.whole(s)
        d, g = s.f['data'], s.f['g']
        if isinstance(n, Term) and n.rng[0] < 0 and not ex.decide(st, le(I(0), n)):
            ex.ob(st, 'neglen', le(I(0), n), 'stream read length is not negative')
            raise Limit('stream read of a possibly negative length')
        ok = and_(le(add(g, n), d.n), not_(s.f['fail']))
        if ex.decide(st, ok):
            ex.write(st, lv, s.set('g', add(g, n)))
            return seq_slice(d, g, n), n
        cnt = ite(s.f['fail'], I(0), ite(le(add(g, n), d.n), n, ite(le(g, d.n), sub(d.n, g), I(0))))
        ex.write(st, lv, s.set('g', add(g, cnt)).set('fail', not_(ok)))
        return tab(cnt, lambda k: seq_get(d, add(g, k))), cnt

    def bytes_of(self, ex, v, t):
        """little-endian bytes of a scalar or array, unsigned"""
        if t[0] == 'int':
            return [byte(v, i) for i in range(t[1] // 8)]
        if t[0] == 'bool':
            return [ite(v, I(1), I(0))]
        if t[0] == 'flt':
            if t[1] != 64:
                raise Limit('bytes of a float')
            return [dbyte(v, i) for i in range(8)]
        if t[0] == 'arr':
            return [b for i in range(int(t[2])) for b in self.bytes_of(ex, seq_get(v, I(i)), t[1])]
        raise Limit('bytes of %s' % (t,))

    def tsize(self, t):
        if t[0] == 'arr':
            return int(t[2]) * self.tsize(t[1])
        if t[0] in SZ:
            return SZ[t[0]](t)
        raise Limit('size of %s' % (t,))

    def from_bytes(self, ex, bs, t):
        if t[0] == 'int':
            return wrap(frombytes(bs), t[1], t[2])
        if t[0] == 'flt' and t[1] == 64:
            return dfrom(bs)
        if t[0] == 'bool':
            return ne(bs[0], I(0))
        if t[0] == 'arr':
            n = self.tsize(t[1])
            return lit([self.from_bytes(ex, bs[i * n:(i + 1) * n], t[1]) for i in range(int(t[2]))])
        raise Limit('decode %s' % (t,))

    def octets(self, p):
        """a pointer into an array of unsigned bytes"""
        return p.lv[0] == 'idx' and p.t[0] == 'int' and p.t[1] == 8

    def mem_bytes(self, ex, st, p, n):
        """n bytes of memory at pointer p, as a Seq of unsigned bytes"""
        if isinstance(p, Str):
            if n.op != 'int' or n.a > len(p.b) + 1:
                raise Limit('bytes of a literal')
            return lit([I(x) for x in (p.b + b'\0')[:n.a]])
        if isinstance(p, Ptr) and p.lv[0] == 'idx':
            s = self.seq(ex, st, p.lv[1])
            ex.ob(st, 'bounds', and_(le(I(0), n), le(add(p.lv[2], n), s.n)), 'memory read stays inside the array')
            return smap(seq_slice(s, p.lv[2], n), uchar)
        if isinstance(p, BytesPtr) and self.octets(p):
            s = self.seq(ex, st, p.lv[1])
            ex.ob(st, 'bounds', and_(le(I(0), n), le(add(p.lv[2], n), s.n)), 'memory read stays inside the array')
            return seq_slice(s, p.lv[2], n)
        if isinstance(p, BytesPtr):
            lv, t = p.lv, p.t
            if lv[0] == 'idx' and t[0] != 'arr' and n.op == 'int' and n.a != self.tsize(t):
                # n / size elements of an array
                z = self.tsize(t)
                s = self.seq(ex, st, lv[1])
                m = n.a // z
                ex.ob(st, 'bounds', le(add(lv[2], I((n.a + z - 1) // z)), s.n), 'memory read stays inside the array')
                if n.a % z:
                    raise Limit('partial element')
                return lit([b for i in range(m) for b in self.bytes_of(ex, seq_get(s, add(lv[2], I(i))), t)])
            v = ex.read(st, lv)
            bs = self.bytes_of(ex, v, t)
            if n.op != 'int':
                raise Limit('symbolic length of a scalar')
            ex.ob(st, 'bounds', le(n, I(len(bs))), 'memory read stays inside the object')
            return lit(bs[:n.a])
        raise Limit('memory at %s' % type(p).__name__)

    def mem_write(self, ex, st, p, data, cnt, want):
        """store cnt bytes (of want requested) at pointer p"""
        if isinstance(p, Ptr) and p.lv[0] == 'idx':
            s = self.seq(ex, st, p.lv[1])
            ex.ob(st, 'bounds', and_(le(I(0), want), le(add(p.lv[2], want), s.n)), 'memory write stays inside the array')
            ex.write(st, p.lv[1], self.replace(s, p.lv[2], cnt, smap(data, schar)))
            return
        if isinstance(p, BytesPtr) and self.octets(p):
            s = self.seq(ex, st, p.lv[1])
            ex.ob(st, 'bounds', and_(le(I(0), want), le(add(p.lv[2], want), s.n)), 'memory write stays inside the array')
            ex.write(st, p.lv[1], self.replace(s, p.lv[2], cnt, data))
            return
        if isinstance(p, BytesPtr):
            lv, t = p.lv, p.t
            if lv[0] == 'idx' and t[0] != 'arr' and want.op == 'int' and want.a != self.tsize(t):
                z = self.tsize(t)
                s = self.seq(ex, st, lv[1])
                ex.ob(st, 'bounds', le(add(lv[2], I((want.a + z - 1) // z)), s.n), 'memory write stays inside the array')
                if cnt.op != 'int' or cnt.a % z:
                    raise Limit('partial element')
                for i in range(cnt.a // z):
                    ex.write(st, ('idx', lv[1], add(lv[2], I(i))), self.from_bytes(ex, [seq_get(data, I(z * i + j)) for j in range(z)], t))
                return
            z = self.tsize(t)
            ex.ob(st, 'bounds', le(want, I(z)), 'memory write stays inside the object')
            if want.op != 'int':
                raise Limit('symbolic length of a scalar')
            if want.a < z:
                raise Limit('partial scalar')
            if cnt is want:
                ex.write(st, lv, self.from_bytes(ex, [seq_get(data, I(i)) for i in range(z)], t))
            else:
                full = eq(cnt, want)
                bs = [seq_get(data, I(i)) for i in range(z)]
                v = self.from_bytes(ex, bs, t)
                junk = self.T.sym(ex, t, 'partial#%d' % ex.bump(), tuple(ex.loopvars))
                ex.write(st, lv, vite(full, v, junk))
            return
        raise Limit('memory write at %s' % type(p).__name__)

    # ------------------------------------------------------------ calls
    def is_cout(self, e):
        while e['k'] in ('cast', 'temp'):
            e = e['e']
        if e['k'] == 'var':
            return (e.get('global') or '').startswith(('std::cout', 'std::cerr', 'std::clog'))
        if e['k'] == 'call':
            if e.get('obj') is not None:
                return self.is_cout(e['obj'])
            if e['args']:
                return self.is_cout(e['args'][0])
        return False

    def call(self, ex, st, e):
        q = norm(e.get('q') or '')
        if q.startswith('copc') or q.startswith('(lambda') or e.get('f') in self.T.prog.funs:
            return NotImplemented
        if q.startswith('lazperf'):
            return self.laz.call(ex, st, e, q)
        parts = q.rsplit('::', 1)
        fam, m = (parts[0], parts[1]) if len(parts) == 2 else ('', q)
        if fam == 'std' or fam == '' or fam == 'std::__detail':
            f = getattr(self, 'f_' + {'operator<<': 'shl', 'operator==': 'eq', 'operator!=': 'ne', 'operator+': 'plus', 'operator<': 'lt_'}.get(m, m), None)
            if f is None:
                raise Limit('no model of %s' % q)
            return f(ex, st, e)
        key = {'std::vector': 'vec', 'std::basic_string': 'str', 'std::array': 'arr', '__gnu_cxx::__normal_iterator': 'it',
               'std::map': 'map', 'std::unordered_map': 'map', 'std::set': 'set', 'std::optional': 'opt',
               'std::__shared_ptr_access': 'sp', 'std::shared_ptr': 'sp', 'std::unique_ptr': 'sp', 'std::__shared_ptr': 'sp',
               'std::_Rb_tree_const_iterator': 'nit', 'std::_Rb_tree_iterator': 'nit', 'std::__detail::_Node_iterator': 'nit', 'std::__detail::_Node_const_iterator': 'nit',
               'std::fpos': 'fpos', 'std::hash': 'hash'}.get(fam)
        if fam in STREAMS:
            key = 'stream'
        if key is None:
            raise Limit('no model of %s' % q)
        nm = m
        for a, b in (('operator[]', 'index'), ('operator->', 'arrow'), ('operator()', 'call'), ('operator==', 'eq'), ('operator!=', 'ne'), ('operator+=', 'pluseq'), ('operator+', 'plus'), ('operator-', 'minus'),
                     ('operator=', 'assign'), ('operator*', 'star'), ('operator++', 'inc'), ('operator--', 'dec'), ('operator<<', 'shl'), ('operator bool', 'bool'), ('operator long', 'long'), ('operator!', 'not'), ('operator>>', 'shr')):
            if m == a:
                nm = b
        if m == 'operator=' and fam == 'std::vector':
            nm = 'assign_op'
        if m == 'operator=':
            nm = 'assign_op'
        if key == 'stream' and nm in ('write', 'read'):
            nm += '_'
        f = getattr(self, '%s_%s' % (key, nm), None)
        if f is None:
            raise Limit('no model of %s' % q)
        return f(ex, st, e)

    def obj(self, ex, st, e):
        o = e['obj']
        if e.get('arrow'):
            p = ex.ev(st, o)
            t = o['t'][1] if o['t'][0] == 'ptr' else None
            return ex.deref(st, p, t) if st.pc is not FALSE else None
        return ex.lv(st, o)

    def arg(self, ex, st, e, i=0):
        """value of argument i"""
        v = ex.ev(st, e['args'][i])
        return v

    def argv(self, ex, st, e, i, t):
        """value of argument i copied into an element of type t"""
        a = e['args'][i]
        x = a
        while x['k'] in ('temp',) or (x['k'] == 'cast' and x['ck'] == 'NoOp'):
            x = x['e']
        if (a.get('lv') or a.get('xv')) and t is not None and t[0] == 'rec' and not self.T.is_std(t) and not (x['k'] == 'call' and norm(x.get('q') or '') == 'std::move'):
            lv = ex.lv(st, a)
            return ex.copy_value(st, t, lv) if st.pc is not FALSE else None
        v = ex.ev(st, a)
        return self.T.adapt(ex, st, v, t) if t is not None and v is not None and st.pc is not FALSE else v

    # ---- vector
    def vec_size(self, ex, st, e):
        return self.seq(ex, st, self.obj(ex, st, e)).n
    def vec_empty(self, ex, st, e):
        return eq(self.seq(ex, st, self.obj(ex, st, e)).n, I(0))
    def vec_begin(self, ex, st, e):
        return It('vec', self.obj(ex, st, e), I(0))
    vec_cbegin = vec_begin
    def vec_end(self, ex, st, e):
        lv = self.obj(ex, st, e)
        return It('vec', lv, self.seq(ex, st, lv).n)
    vec_cend = vec_end
    def vec_swap(self, ex, st, e):
        a, b = self.obj(ex, st, e), ex.lv(st, e['args'][0])
        x, y = ex.read(st, a), ex.read(st, b)
        if st.pc is not FALSE:
            ex.write(st, a, y)
            ex.write(st, b, x)
        return None
    def vec_data(self, ex, st, e):
        return Ptr(('idx', self.obj(ex, st, e), I(0)))
    def vec_index(self, ex, st, e):
        lv = self.obj(ex, st, e)
        i = self.arg(ex, st, e)
        # the address one past the last element may be taken (also `&v[0]` of an empty vector, which is harmless)
        last = getattr(ex, 'addr_of', None) is e
        s = self.seq(ex, st, lv)
        ex.ob(st, 'bounds', and_(le(I(0), i), (le if last else lt)(i, s.n)), 'index inside the container')
        return ('idx', lv, i)
    def vec_at(self, ex, st, e):
        lv = self.obj(ex, st, e)
        i = self.arg(ex, st, e)
        ex.throw(st, not_(lt(i, self.seq(ex, st, lv).n)))
        return ('idx', lv, i)
    def vec_front(self, ex, st, e):
        lv = self.obj(ex, st, e)
        ex.ob(st, 'bounds', lt(I(0), self.seq(ex, st, lv).n), 'front of a non-empty container')
        return ('idx', lv, I(0))
    def vec_back(self, ex, st, e):
        lv = self.obj(ex, st, e)
        n = self.seq(ex, st, lv).n
        ex.ob(st, 'bounds', lt(I(0), n), 'back of a non-empty container')
        return ('idx', lv, sub(n, I(1)))
    def et(self, e):
        t = e['cls'] if e.get('cls') else None
        if t and t[0] == 'rec' and t[3]:
            return t[3][0]
        return None
    def vec_push_back(self, ex, st, e):
        lv = self.obj(ex, st, e)
        v = self.argv(ex, st, e, 0, self.et(e))
        if st.pc is FALSE:
            return None
        s = self.seq(ex, st, lv)
        ex.write(st, lv, cat(s, lit([v])))
    def vec_emplace_back(self, ex, st, e):
        lv = self.obj(ex, st, e)
        v = self.build(ex, st, self.et(e), e['args'])
        if st.pc is FALSE:
            return None
        s = self.seq(ex, st, lv)
        ex.write(st, lv, cat(s, lit([v])))
        return ('idx', lv, s.n)
    def vec_pop_back(self, ex, st, e):
        lv = self.obj(ex, st, e)
        s = self.seq(ex, st, lv)
        ex.ob(st, 'bounds', lt(I(0), s.n), 'pop_back of a non-empty container')
        ex.write(st, lv, seq_slice(s, I(0), sub(s.n, I(1))))
    def vec_insert(self, ex, st, e):
        lv = self.obj(ex, st, e)
        p = self.arg(ex, st, e, 0)
        s = self.seq(ex, st, lv)
        _, at = self.pos(p)
        if len(e['args']) == 3:
            vals = self.rng(ex, st, self.arg(ex, st, e, 1), self.arg(ex, st, e, 2))
        elif len(e['args']) == 2:
            vals = lit([self.argv(ex, st, e, 1, self.et(e))])
        else:
            raise Limit('vector::insert')
        ex.ob(st, 'bounds', and_(le(I(0), at), le(at, s.n)), 'insert position inside the container')
        if at is s.n:
            new = cat(s, vals)
        else:
            new = cat(seq_slice(s, I(0), at), vals, seq_slice(s, at, sub(s.n, at)))
        ex.write(st, lv, new)
        return It('vec', lv, at)
    def vec_erase(self, ex, st, e):
        lv = self.obj(ex, st, e)
        s = self.seq(ex, st, lv)
        _, a = self.pos(self.arg(ex, st, e, 0))
        b = self.pos(self.arg(ex, st, e, 1))[1] if len(e['args']) == 2 else add(a, I(1))
        ex.ob(st, 'bounds', and_(le(I(0), a), le(a, b), le(b, s.n)), 'erase range inside the container')
        ex.write(st, lv, cat(seq_slice(s, I(0), a), seq_slice(s, b, sub(s.n, b))))
        return It('vec', lv, a)
    def vec_assign(self, ex, st, e):
        lv = self.obj(ex, st, e)
        a0 = e['args'][0]
        if a0['t'][0] == 'int':
            n = self.arg(ex, st, e, 0)
            v = self.argv(ex, st, e, 1, self.et(e))
            ex.write(st, lv, tab(n, lambda k: v))
        else:
            s = self.rng(ex, st, self.arg(ex, st, e, 0), self.arg(ex, st, e, 1))
            ex.write(st, lv, self.conv_seq(ex, s, e))
        return None
    def conv_seq(self, ex, s, e):
        t = self.et(e)
        if t == I8:
            return smap(s, schar)
        if t == U8:
            return smap(s, uchar)
        return s
    def vec_resize(self, ex, st, e):
        lv = self.obj(ex, st, e)
        n = self.arg(ex, st, e, 0)
        s = self.seq(ex, st, lv)
        v = self.argv(ex, st, e, 1, self.et(e)) if len(e['args']) > 1 else self.T.zero(ex, self.et(e))
        ex.write(st, lv, seq_resize(s, n, v))
    def vec_reserve(self, ex, st, e):
        self.obj(ex, st, e)
        self.arg(ex, st, e, 0)
    def vec_shrink_to_fit(self, ex, st, e):
        self.obj(ex, st, e)
    def vec_clear(self, ex, st, e):
        ex.write(st, self.obj(ex, st, e), Seq())
    def vec_assign_op(self, ex, st, e):
        v = ex.ev(st, e['args'][0])
        lv = self.obj(ex, st, e)
        if st.pc is FALSE:
            return lv
        ex.write(st, lv, self.T.adapt(ex, st, v, e['cls']))
        return lv

    # ---- string
    str_size, str_length, str_empty, str_begin, str_cbegin, str_end, str_cend, str_index, str_resize, str_reserve, str_clear, str_push_back, str_assign_op, str_data_ = \
        vec_size, vec_size, vec_empty, vec_begin, vec_begin, vec_end, vec_end, vec_index, vec_resize, vec_reserve, vec_clear, vec_push_back, vec_assign_op, vec_data
    def str_c_str(self, ex, st, e):
        lv = self.obj(ex, st, e)
        s = self.seq(ex, st, lv)
        z = cat(s, lit([I(0)]))
        return Ptr(('idx', ex.cell(st, z, '_cstr'), I(0)))
    def str_data(self, ex, st, e):
        lv = self.obj(ex, st, e)
        if lv is not None and not e.get('const'):
            return Ptr(('idx', lv, I(0)))
        return self.str_c_str(ex, st, e)
    def str_pluseq(self, ex, st, e):
        lv = self.obj(ex, st, e)
        v = ex.ev(st, e['args'][0])
        v = self.as_str(ex, st, v, e['args'][0]['t'])
        ex.write(st, lv, cat(self.seq(ex, st, lv), v))
        return lv
    str_append = str_pluseq
    def str_substr(self, ex, st, e):
        s = self.seq(ex, st, self.obj(ex, st, e))
        a = self.arg(ex, st, e, 0)
        n = self.arg(ex, st, e, 1) if len(e['args']) > 1 and e['args'][1]['k'] != 'default' else I((1 << 64) - 1)
        ex.throw(st, lt(s.n, a))
        if st.pc is FALSE:
            return Seq()
        rest = sub(s.n, a)
        m = ite(lt(rest, n), rest, n)
        if s.n.op == 'int' and s.n.a <= 64 and a.op == 'int' and m.op == 'int':
            return seq_slice(s, a, m)
        return seq_slice(s, a, m) if m is rest or m is n else tab(m, lambda k: seq_get(s, add(a, k)))
    def as_str(self, ex, st, v, t):
        if isinstance(v, Seq):
            return v
        if isinstance(v, Term) and v.sort == 'I' and t[0] == 'int' and t[1] == 8:
            return lit([v])
        return self.chars(ex, st, v)

    # ---- array
    def arr_index(self, ex, st, e):
        return self.vec_index(ex, st, e)
    arr_size, arr_begin, arr_end, arr_data, arr_at, arr_assign_op = vec_size, vec_begin, vec_end, vec_data, vec_at, vec_assign_op
    def arr_fill(self, ex, st, e):
        lv = self.obj(ex, st, e)
        v = self.arg(ex, st, e, 0)
        s = self.seq(ex, st, lv)
        ex.write(st, lv, tab(s.n, lambda k: v))

    # ---- iterators
    def it_star(self, ex, st, e):
        return self.T.it_deref(ex, st, ex.ev(st, e['obj']))
    def it_arrow(self, ex, st, e):
        lv = self.T.it_deref(ex, st, ex.ev(st, e['obj']))
        return Ptr(lv)
    def it_plus(self, ex, st, e):
        i = ex.ev(st, e['obj'])
        return It(i.kind, i.lv, add(i.pos, self.arg(ex, st, e)))
    def it_minus(self, ex, st, e):
        i = ex.ev(st, e['obj'])
        return It(i.kind, i.lv, sub(i.pos, self.arg(ex, st, e)))
    def it_inc(self, ex, st, e):
        lv = ex.lv(st, e['obj'])
        i = ex.read(st, lv)
        ex.write(st, lv, It(i.kind, i.lv, add(i.pos, I(1))))
        return i if len(e['args']) else lv
    def it_dec(self, ex, st, e):
        lv = ex.lv(st, e['obj'])
        i = ex.read(st, lv)
        ex.write(st, lv, It(i.kind, i.lv, sub(i.pos, I(1))))
        return i if len(e['args']) else lv
    def it_pluseq(self, ex, st, e):
        lv = ex.lv(st, e['obj'])
        i = ex.read(st, lv)
        ex.write(st, lv, It(i.kind, i.lv, add(i.pos, self.arg(ex, st, e))))
        return lv

    # ---- optional
    def opt_bool(self, ex, st, e):
        return ex.read(st, self.obj(ex, st, e)).has
    opt_has_value = opt_bool
    def opt_star(self, ex, st, e):
        lv = self.obj(ex, st, e)
        ex.ob(st, 'optional', ex.read(st, lv).has, 'optional holds a value')
        return ('optval', lv)
    opt_arrow_ = opt_star
    def opt_value(self, ex, st, e):
        lv = self.obj(ex, st, e)
        ex.throw(st, not_(ex.read(st, lv).has))
        return ('optval', lv)
    def opt_value_or(self, ex, st, e):
        o = ex.read(st, self.obj(ex, st, e))
        d = self.arg(ex, st, e)
        return vite(o.has, o.val, self.T.adapt(ex, st, d, self.et(e)))

    # ---- smart pointers
    def sp_arrow(self, ex, st, e):
        o = e['obj']
        v = ex.ev(st, o)
        if isinstance(v, Term):
            ex.ob(st, 'null', ne(v, I(0)), 'pointer dereferenced is not null')
        return v
    def sp_get(self, ex, st, e):
        return ex.ev(st, e['obj'])
    def sp_star(self, ex, st, e):
        v = ex.ev(st, e['obj'])
        t = e['obj']['t']
        pt = t[3][0] if t[0] == 'rec' and t[3] else e['ret'][1]
        if pt[0] != 'rec':
            pt = e['ret'][1] if e.get('ret') and e['ret'][0] == 'ref' else e['t']
        return ex.deref(st, v, pt)
    def sp_assign_op(self, ex, st, e):
        v = ex.ev(st, e['args'][0])
        lv = self.obj(ex, st, e)
        if st.pc is FALSE:
            return lv
        if isinstance(v, Opaque):
            v = I(0)
        ex.write(st, lv, v)
        return lv
    def sp_bool(self, ex, st, e):
        return ne(ex.ev(st, e['obj']), I(0))
    def sp_reset(self, ex, st, e):
        lv = self.obj(ex, st, e)
        ex.write(st, lv, self.arg(ex, st, e) if e['args'] else I(0))

    # ---- maps
    def mkey(self, ex, st, e, i=0):
        return ex.ev(st, e['args'][i])
    def map_index(self, ex, st, e):
        lv = self.obj(ex, st, e)
        k = self.mkey(ex, st, e)
        if st.pc is FALSE:
            return None
        m = ex.read(st, lv)
        h = ex.map_has(st, m, k)
        if not ex.decide(st, h):
            d = self.T.zero(ex, m.vt) if m.vt[0] != 'rec' or self.T.is_std(m.vt) else self.T.default(ex, st, m.vt)
            ex.write(st, lv, m.up('set', not_(h), k, d))
        return ('map', lv, k)
    def map_find(self, ex, st, e):
        lv = self.obj(ex, st, e)
        k = self.mkey(ex, st, e)
        m = ex.read(st, lv)
        return MIt(lv, k, ex.map_has(st, m, k))
    def map_count(self, ex, st, e):
        return ite(self.map_find(ex, st, e).has, I(1), I(0))
    def map_at(self, ex, st, e):
        it = self.map_find(ex, st, e)
        ex.throw(st, not_(it.has))
        return ('map', it.lv, it.key)
    def map_end(self, ex, st, e):
        return It('mend', self.obj(ex, st, e), I(0))
    def map_begin(self, ex, st, e):
        lv = self.obj(ex, st, e)
        en = self.T.enumerate(ex, st, ex.read(st, lv))
        k = en.key(I(0))
        return MIt(lv, k, lt(I(0), en.n))
    def map_empty(self, ex, st, e):
        m = ex.read(st, self.obj(ex, st, e))
        return eq(self.map_len(ex, st, m), I(0))
    def map_size(self, ex, st, e):
        m = ex.read(st, self.obj(ex, st, e))
        return self.map_len(ex, st, m)
    def map_len(self, ex, st, m):
        """number of keys"""
        if m.base[0] == 'empty':
            n, cur = I(0), MapV(m.base, (), m.kt, m.vt)
        else:
            cur = MapV(m.base, (), m.kt, m.vt)
            n = self.T.enumerate(ex, st, cur).n
        for u in m.ups:
            if u[0] in ('set', 'ins'):
                n = add(n, ite(and_(u[1], not_(ex.map_has(st, cur, u[2]))), I(1), I(0)))
            elif u[0] == 'del':
                n = sub(n, ite(and_(u[1], ex.map_has(st, cur, u[2])), I(1), I(0)))
            elif u[0] == 'clear':
                n = ite(u[1], I(0), n)
            else:
                return self.T.enumerate(ex, st, m).n
            cur = cur.up(*u)
        return n
    def map_erase(self, ex, st, e):
        lv = self.obj(ex, st, e)
        a = ex.ev(st, e['args'][0])
        m = ex.read(st, lv)
        if isinstance(a, MIt):
            ex.ob(st, 'mapiter', a.has, 'erased iterator is dereferenceable')
            ex.write(st, lv, m.up('del', TRUE, a.key))
            return It('mend', lv, I(0))
        h = ex.map_has(st, m, a)
        ex.write(st, lv, m.up('del', TRUE, a))
        return ite(h, I(1), I(0))
    def map_clear(self, ex, st, e):
        lv = self.obj(ex, st, e)
        m = ex.read(st, lv)
        ex.write(st, lv, MapV(EMPTYMAP, (), m.kt, m.vt))
    def map_insert(self, ex, st, e):
        lv = self.obj(ex, st, e)
        v = ex.ev(st, e['args'][0])
        if st.pc is FALSE:
            return None
        m = ex.read(st, lv)
        if not isinstance(v, Rec) or 'first' not in v.f:
            raise Limit('map insert')
        k = v.f['first']
        h = ex.map_has(st, m, k)
        val = v.f['second']
        if isinstance(val, Rec) and m.vt[0] == 'rec' and val.cls != m.vt[2]:
            val = self.T.slice(val, m.vt[2])
        ex.write(st, lv, m.up('ins', TRUE, k, val))
        return Rec('std::pair', {'first': MIt(lv, k, TRUE), 'second': not_(h)})
    def map_emplace(self, ex, st, e):
        lv = self.obj(ex, st, e)
        if len(e['args']) != 2:
            raise Limit('map emplace')
        k, val = ex.ev(st, e['args'][0]), ex.ev(st, e['args'][1])
        if st.pc is FALSE:
            return None
        m = ex.read(st, lv)
        def same(a, t):
            a = a['t'][1] if a['t'][0] == 'ref' else a['t']
            return list(a) == list(t) or (a[0] == t[0] == 'rec' and a[2] == t[2])
        if not same(e['args'][0], m.kt) or not same(e['args'][1], m.vt):
            raise Limit('map emplace with conversions')
        h = ex.map_has(st, m, k)
        ex.write(st, lv, m.up('ins', TRUE, k, val))
        return Rec('std::pair', {'first': MIt(lv, k, TRUE), 'second': not_(h)})
    map_try_emplace = map_emplace
    def map_assign_op(self, ex, st, e):
        v = ex.ev(st, e['args'][0])
        lv = self.obj(ex, st, e)
        if st.pc is FALSE:
            return lv
        ex.write(st, lv, v)
        return lv
    def set_insert(self, ex, st, e):
        lv = self.obj(ex, st, e)
        v = ex.ev(st, e['args'][0])
        if st.pc is FALSE:
            return None
        m = ex.read(st, lv)
        h = ex.map_has(st, m, v)
        ex.write(st, lv, m.up('set', TRUE, v, TRUE))
        return Rec('std::pair', {'first': Opaque('set iterator'), 'second': not_(h)})
    set_size, set_empty, set_find, set_end, set_erase, set_clear, set_count, set_assign_op = map_size, map_empty, map_find, map_end, map_erase, map_clear, map_count, map_assign_op
    def nit_star(self, ex, st, e):
        it = ex.ev(st, e['obj'])
        return self.nit(ex, st, it)
    def nit(self, ex, st, it):
        if isinstance(it, MIt):
            ex.ob(st, 'mapiter', it.has, 'map iterator is dereferenceable')
            return ('mpair', it.lv, it.key)
        raise Limit('map iterator')
    def nit_arrow(self, ex, st, e):
        it = ex.ev(st, e['obj'])
        return Ptr(self.nit(ex, st, it))
    def fpos_long(self, ex, st, e):
        return ex.ev(st, e['obj'])
    def hash_call(self, ex, st, e):
        v = ex.ev(st, e['args'][0])
        return uf('std.hash', (v,), 'I', 0, (1 << 64) - 1)

    # ---- streams
    def slv(self, ex, st, e):
        return self.obj(ex, st, e)
    def stream_write_(self, ex, st, e):
        lv = self.slv(ex, st, e)
        p = self.arg(ex, st, e, 0)
        n = self.arg(ex, st, e, 1)
        if st.pc is FALSE:
            return lv
        if n.rng[0] < 0:
            ex.ob(st, 'neglen', le(I(0), n), 'stream write length is not negative')
        self.stream_write(ex, st, lv, self.mem_bytes(ex, st, p, n))
        return lv
    def stream_read_(self, ex, st, e):
        lv = self.slv(ex, st, e)
        p = self.arg(ex, st, e, 0)
        n = self.arg(ex, st, e, 1)
        if st.pc is FALSE:
            return lv
        data, cnt = self.stream_read(ex, st, lv, n)
        self.mem_write(ex, st, p, data, cnt, n)
        return lv
    def stream_seek(self, ex, st, e, key):
        lv = self.slv(ex, st, e)
        a = self.arg(ex, st, e, 0)
        s = ex.read(st, lv)
        if len(e['args']) == 2:
            d = self.arg(ex, st, e, 1)
            if d is I(0):
                pos = a
            elif d is I(1):
                pos = add(s.f[key], a)
            elif d is I(2):
                self.whole(s)
                pos = add(s.f['data'].n, a)
            else:
                raise Limit('seek direction')
        else:
            pos = a
        f = s.f['fail']
        if len(e['args']) == 2 and d is I(1):
            ex.ob(st, 'seek', le(I(0), pos), 'a relative seek does not leave the file at its start')
        elif not ex.decide(st, le(I(0), pos)):         # a negative position is refused
            f = or_(f, lt(pos, I(0)))
            s = s.set('fail', f)
        ex.write(st, lv, s.set(key, ite(f, s.f[key], pos)))
        return lv
    def stream_seekg(self, ex, st, e):
        return self.stream_seek(ex, st, e, 'g')
    def stream_seekp(self, ex, st, e):
        return self.stream_seek(ex, st, e, 'p')
    def stream_tell(self, ex, st, e, key):
        s = ex.read(st, self.slv(ex, st, e))
        return ite(s.f['fail'], I(-1), s.f[key])
    def stream_tellg(self, ex, st, e):
        return self.stream_tell(ex, st, e, 'g')
    def stream_tellp(self, ex, st, e):
        return self.stream_tell(ex, st, e, 'p')
    def stream_good(self, ex, st, e):
        return not_(ex.read(st, self.slv(ex, st, e)).f['fail'])
    def stream_fail(self, ex, st, e):
        return ex.read(st, self.slv(ex, st, e)).f['fail']
    stream_not, stream_eof = stream_fail, stream_fail
    def stream_bool(self, ex, st, e):
        return self.stream_good(ex, st, e)
    def stream_clear(self, ex, st, e):
        lv = self.slv(ex, st, e)
        ex.write(st, lv, ex.read(st, lv).set('fail', FALSE))
    def stream_str(self, ex, st, e):
        lv = self.slv(ex, st, e)
        s = ex.read(st, lv)
        if e['args']:
            v = self.arg(ex, st, e)
            ex.write(st, lv, s.set('data', smap(v, uchar)).set('g', I(0)).set('p', I(0)))
            return None
        self.whole(s)
        return smap(s.f['data'], schar)
    def stream_is_open(self, ex, st, e):
        return ex.read(st, self.slv(ex, st, e)).f['open']
    def stream_open(self, ex, st, e):
        raise Limit('opening a file')
    def stream_close(self, ex, st, e):
        lv = self.slv(ex, st, e)
        ex.write(st, lv, ex.read(st, lv).set('open', FALSE))
    def stream_flush(self, ex, st, e):
        return self.slv(ex, st, e)
    def stream_precision(self, ex, st, e):
        return I(6)
    def stream_rdbuf(self, ex, st, e):
        raise Limit('rdbuf')
    def stream_shl(self, ex, st, e):
        if self.is_cout(e):
            ex.notes.add('what is printed on std::cout is neither computed nor checked')
            return ex.cell(st, Opaque('cout'))
        lv = self.slv(ex, st, e)
        a = e['args'][0]
        v = self.arg(ex, st, e, 0)
        if st.pc is FALSE:
            return lv
        if not isinstance(v, Term) or v.sort == 'B' or a['t'][0] not in ('int', 'flt'):
            raise Limit('formatted output')
        self.stream_write(ex, st, lv, decimal(v))
        return lv

    # ---- free functions
    def f_shl(self, ex, st, e):
        if self.is_cout(e):
            ex.notes.add('what is printed on std::cout is neither computed nor checked')
            return ex.cell(st, Opaque('cout'))
        lv = ex.lv(st, e['args'][0])
        v = self.arg(ex, st, e, 1)
        if st.pc is FALSE:
            return lv
        if isinstance(v, Str):
            v = bytes_lit(v.b)
        if not isinstance(v, Seq):
            raise Limit('formatted output')
        self.stream_write(ex, st, lv, smap(v, uchar))
        return lv
    def f_setprecision(self, ex, st, e):
        return Opaque('setprecision')
    def f_move(self, ex, st, e):
        return ex.lv(st, e['args'][0])
    def f_forward(self, ex, st, e):
        return ex.lv(st, e['args'][0])
    def f_eq(self, ex, st, e):
        a, b = ex.ev(st, e['args'][0]), ex.ev(st, e['args'][1])
        if st.pc is FALSE:
            return FALSE
        return self.equal(ex, st, a, b)
    def equal(self, ex, st, a, b):
        if isinstance(a, It) and a.kind == 'mend':
            a, b = b, a
        if isinstance(b, It) and b.kind == 'mend':
            if isinstance(a, MIt):
                return not_(a.has)
            raise Limit('end iterators')
        if isinstance(a, Str) or isinstance(b, Str) or isinstance(a, Ptr) and isinstance(b, Seq) or isinstance(b, Ptr) and isinstance(a, Seq):
            a = a if isinstance(a, Seq) else self.chars(ex, st, a)
            b = b if isinstance(b, Seq) else self.chars(ex, st, b)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq_eq(ex, a, b)
        if isinstance(a, It) and isinstance(b, It) and lvkey(a.lv) == lvkey(b.lv):
            return eq(a.pos, b.pos)
        if isinstance(a, Term) and isinstance(b, Term):
            return ex.compare(st, '==', a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):   # comparison with nullptr
            x = b if isinstance(a, Opaque) else a
            return eq(x, I(0))
        raise Limit('operator== of %s and %s' % (type(a).__name__, type(b).__name__))
    def f_ne(self, ex, st, e):
        return not_(self.f_eq(ex, st, e))
    def f_plus(self, ex, st, e):
        a = self.as_str(ex, st, ex.ev(st, e['args'][0]), e['args'][0]['t'])
        b = self.as_str(ex, st, ex.ev(st, e['args'][1]), e['args'][1]['t'])
        return cat(a, b)
    def f_to_string(self, ex, st, e):
        v = self.arg(ex, st, e)
        n = uf('to_string.n', (v,), 'I', 1, 64)
        return tab(n, lambda k: uf('to_string.c', (v, k), 'I', -128, 127))
    def f_max(self, ex, st, e):
        if len(e['args']) == 1:
            v = ex.ev(st, e['args'][0])
            n = v.n
            if n.op != 'int' or not n.a:
                raise Limit('std::max of a list of unknown length')
            r = seq_get(v, I(0))
            for i in range(1, n.a):
                x = seq_get(v, I(i))
                r = vite(ex.compare(st, '<', r, x), x, r)
            return r
        a, b = ex.lv(st, e['args'][0]), ex.lv(st, e['args'][1])
        x, y = ex.read(st, a), ex.read(st, b)
        return lv_ite(ex.compare(st, '<', x, y), b, a)
    def f_min(self, ex, st, e):
        if len(e['args']) == 1:
            v = ex.ev(st, e['args'][0])
            n = v.n
            if n.op != 'int' or not n.a:
                raise Limit('std::min of a list of unknown length')
            r = seq_get(v, I(0))
            for i in range(1, n.a):
                x = seq_get(v, I(i))
                r = vite(ex.compare(st, '<', x, r), x, r)
            return r
        a, b = ex.lv(st, e['args'][0]), ex.lv(st, e['args'][1])
        x, y = ex.read(st, a), ex.read(st, b)
        return lv_ite(ex.compare(st, '<', y, x), b, a)
    def f_fabs(self, ex, st, e):
        return dop('fabs', self.arg(ex, st, e))
    def f_abs(self, ex, st, e):
        v = self.arg(ex, st, e)
        if v.sort == 'D':
            return dop('fabs', v)
        return ite(lt(v, I(0)), ex.arith(st, '-', I(0), v, e['t']), v)
    def f_round(self, ex, st, e):
        return dop('fround', self.arg(ex, st, e))
    def f_floor(self, ex, st, e):
        return dop('ffloor', self.arg(ex, st, e))
    def f_ceil(self, ex, st, e):
        return dop('fceil', self.arg(ex, st, e))
    def f_trunc(self, ex, st, e):
        return dop('ftrunc', self.arg(ex, st, e))
    def f_isnan(self, ex, st, e):
        return isnan(self.arg(ex, st, e))
    def f_isfinite(self, ex, st, e):
        v = self.arg(ex, st, e)
        return and_(not_(isnan(v)), dcmp('lt', D(float('-inf')), v), dcmp('lt', v, D(float('inf'))))
    def f_isinf(self, ex, st, e):
        v = self.arg(ex, st, e)
        return or_(dcmp('eq', D(float('-inf')), v), dcmp('eq', v, D(float('inf'))))
    def f_pow(self, ex, st, e):
        a, b = self.arg(ex, st, e, 0), self.arg(ex, st, e, 1)
        if a.sort == 'I':
            a = i2d(a)
        if b.sort == 'I':
            b = i2d(b)
        return dop('pow', a, b)
    def f_ldexp(self, ex, st, e):
        a, b = self.arg(ex, st, e, 0), self.arg(ex, st, e, 1)
        return dop('fmul', a, dop('pow', D(2.0), i2d(b)))
    def f_exp2(self, ex, st, e):
        return dop('pow', D(2.0), self.arg(ex, st, e, 0))
    def f_make_shared(self, ex, st, e):
        t = e['targs'][0] if e.get('targs') else e['ret'][3][0]
        v = self.build(ex, st, t, e['args'])
        if st.pc is FALSE:
            return I(0)
        if isinstance(v, Rec) and v.cls != '%stream':
            return ex.new_object(st, t[2], v)
        if isinstance(v, Rec):
            r = ex.alloc(st, t[2])
            ex.heap_write(st, '%stream', r, v)
            return r
        raise Limit('make_shared of %s' % (t,))
    f_make_unique = f_make_shared
    def f_static_pointer_cast(self, ex, st, e):
        return self.arg(ex, st, e)
    def f_dynamic_pointer_cast(self, ex, st, e):
        return self.T.dyncast(ex, st, self.arg(ex, st, e), ['ptr', e['ret'][3][0]])
    def f_begin(self, ex, st, e):
        return It('vec', ex.lv(st, e['args'][0]), I(0))
    def f_end(self, ex, st, e):
        lv = ex.lv(st, e['args'][0])
        return It('vec', lv, self.seq(ex, st, lv).n)
    f_cbegin, f_cend = f_begin, f_end
    def f_make_pair(self, ex, st, e):
        vs = []
        for a in e['args']:
            if a['t'][0] not in ('int', 'bool', 'rec', 'double', 'float', 'flt', 'enum'):
                raise Limit('make_pair of ' + a['t'][0])
            vs.append(ex.ev(st, a))
        if st.pc is FALSE:
            return None
        return Rec('std::pair', {'first': vs[0], 'second': vs[1]})
    def f_swap(self, ex, st, e):
        a, b = ex.lv(st, e['args'][0]), ex.lv(st, e['args'][1])
        x, y = ex.read(st, a), ex.read(st, b)
        if st.pc is not FALSE:
            ex.write(st, a, y)
            ex.write(st, b, x)
        return None
    def f_exchange(self, ex, st, e):
        a = ex.lv(st, e['args'][0])
        old = ex.read(st, a)
        v = ex.ev(st, e['args'][1])
        if st.pc is not FALSE:
            ex.write(st, a, v)
        return old
    def f_clamp(self, ex, st, e):
        v, lo, hi = [ex.lv(st, e['args'][i]) for i in range(3)]
        x, l, h = [ex.read(st, p) for p in (v, lo, hi)]
        ex.ob(st, 'bounds', not_(ex.compare(st, '<', h, l)), 'std::clamp: low does not exceed high')
        return lv_ite(ex.compare(st, '<', x, l), lo, lv_ite(ex.compare(st, '<', h, x), hi, v))
    def f_copy(self, ex, st, e):
        a, b, d = [self.arg(ex, st, e, i) for i in range(3)]
        return self.overwrite(ex, st, d, self.rng(ex, st, a, b))
    def f_copy_n(self, ex, st, e):
        a, n, d = [self.arg(ex, st, e, i) for i in range(3)]
        b = It('vec', a.lv, add(a.pos, n)) if isinstance(a, It) else Ptr(('idx', a.lv[1], add(a.lv[2], n)))
        return self.overwrite(ex, st, d, self.rng(ex, st, a, b))
    def f_memcpy(self, ex, st, e):
        d, s, n = [self.arg(ex, st, e, i) for i in range(3)]
        data = self.mem_bytes(ex, st, s, n)
        self.mem_write(ex, st, d, data, n, n)
        return d
    def f_memset(self, ex, st, e):
        d, v, n = [self.arg(ex, st, e, i) for i in range(3)]
        self.mem_write(ex, st, d, tab(n, lambda k: uchar(v)), n, n)
        return d
    def f_back_inserter(self, ex, st, e):
        return BackIt(ex.lv(st, e['args'][0]))
    def f_fill(self, ex, st, e):
        a, b = self.arg(ex, st, e, 0), self.arg(ex, st, e, 1)
        v = self.arg(ex, st, e, 2)
        lv, pa = self.pos(a)
        _, pb = self.pos(b)
        self.overwrite(ex, st, a, tab(sub(pb, pa), lambda k: v), 'fill')
        return None
    def f_fill_n(self, ex, st, e):
        a, n, v = self.arg(ex, st, e, 0), self.arg(ex, st, e, 1), self.arg(ex, st, e, 2)
        n = n if n.rng[0] >= 0 else ite(le(I(0), n), n, I(0))
        return self.overwrite(ex, st, a, tab(n, lambda k: v), 'fill_n')
    def f_transform(self, ex, st, e):
        a, b, d = [self.arg(ex, st, e, i) for i in range(3)]
        f = self.arg(ex, st, e, 3)
        src, pa = self.pos(a)
        _, pb = self.pos(b)
        s = self.seq(ex, st, src)
        ex.ob(st, 'bounds', and_(le(I(0), pa), le(pa, pb), le(pb, s.n)), 'iterator range inside its container')
        n = sub(pb, pa)
        if isinstance(d, It):
            dl, pd = self.pos(d)
            ex.ob(st, 'bounds', and_(le(I(0), pd), le(add(pd, n), self.seq(ex, st, dl).n)), 'transform stays inside the destination')
        it = ex.cell(st, I(0), '_ti')
        pt = f.node['params'][0]['t'] if isinstance(f, Lam) else f.f['t'][2][0]
        dt = e['ret'][3][0][1] if False else None
        et = None
        if isinstance(d, It):
            et = self.elem_type(e['args'][2]['t'])
        def body(x):
            i = ex.read(x, it)
            lv = ('idx', src, add(pa, i))
            arg = lv if pt[0] == 'ref' else ex.copy_value(x, pt, lv)
            v = ex.call_lambda(x, f, [arg])
            if isinstance(v, tuple):
                v = ex.read(x, v)
            if x.pc is FALSE:
                return
            if et is not None and et[0] == 'int' and isinstance(v, Term):
                v = wrap(v, et[1], et[2])
            if isinstance(d, BackIt):
                ex.write(x, d.lv, cat(ex.read(x, d.lv), lit([v])))
            else:
                ex.write(x, ('idx', dl, add(pd, i)), v)
        ex.loop(st, lambda x: lt(ex.read(x, it), n), body, lambda x: ex.write(x, it, add(ex.read(x, it), I(1))))
        return It('vec', dl, add(pd, n)) if isinstance(d, It) else d
    def elem_type(self, t):
        if t[0] == 'ptr':
            return t[1]
        if t[0] == 'rec' and t[3]:
            x = t[3][0]
            return x[1] if x[0] == 'ptr' else None
        return None
    def f_memcmp(self, ex, st, e):
        a, b, n = [self.arg(ex, st, e, i) for i in range(3)]
        x, y = self.mem_bytes(ex, st, a, n), self.mem_bytes(ex, st, b, n)
        c = self.seq_eq(ex, x, y)
        r = ex.fresh('memcmp', 'I', -(1 << 31), (1 << 31) - 1)
        ex.fact(ne(r, I(0)))
        return ite(c, I(0), r)
    def f_strnlen(self, ex, st, e):
        p, n = self.arg(ex, st, e, 0), self.arg(ex, st, e, 1)
        if isinstance(p, Ptr) and p.lv[0] == 'idx':
            s = self.seq(ex, st, p.lv[1])
            ex.ob(st, 'bounds', le(add(p.lv[2], n), s.n), 'strnlen stays inside the array')
            return self.cstr_len(ex, s, p.lv[2], n)
        raise Limit('strnlen')
    def f_strlen(self, ex, st, e):
        return self.chars(ex, st, self.arg(ex, st, e, 0)).n
    def f_strncpy(self, ex, st, e):
        d, p, n = [self.arg(ex, st, e, i) for i in range(3)]
        if isinstance(p, Str):
            s, off = bytes_lit(p.b + b'\0'), I(0)
        else:
            s, off = self.seq(ex, st, p.lv[1]), p.lv[2]
        if n.op != 'int' or n.a > 64:
            raise Limit('strncpy of a symbolic length')
        # bytes up to the first zero, then zeros; positions past the end are never reached (the source is terminated)
        vals, stop = [], FALSE
        for i in range(n.a):
            inb = lt(add(off, I(i)), s.n)
            c = seq_get(s, add(off, I(i))) if inb is not FALSE else I(0)
            vals.append(ite(or_(stop, not_(inb)), I(0), c))
            stop = or_(stop, not_(inb), eq(c, I(0)))
        self.overwrite(ex, st, d, lit(vals), 'strncpy')
        return d
    def f_get(self, ex, st, e):
        raise Limit('std::get')

    # ------------------------------------------------------------ construction
    def build(self, ex, st, t, argexprs):
        """object of type t constructed from argument expressions (overload chosen by type)"""
        if t[0] != 'rec':
            if not argexprs:
                return self.T.zero(ex, t)
            v = ex.ev(st, argexprs[0])
            return ex.convert(st, v, argexprs[0]['t'], t) if isinstance(v, Term) else v
        cls = t[2]
        if self.T.is_std(t):
            return self.std_build(ex, st, t, argexprs)
        cands = []
        short = cls.split('::')[-1]
        for fid in self.T.prog.byname.get(cls + '::' + short, []):
            f = self.T.prog.funs[fid]
            ps = f['params']
            if len(ps) < len(argexprs):
                continue
            if len(ps) > len(argexprs) and not all(p.get('def') is not None for p in ps[len(argexprs):]):
                continue
            sc = [self.match(a, p['t']) for a, p in zip(argexprs, ps)]
            if any(x is None for x in sc):
                continue
            cands.append((sc, len(ps), fid))
        if not cands:
            if not argexprs:
                return self.T.default_fields(ex, st, cls, {'zeroinit': True})
            if len(argexprs) == 1 and argexprs[0]['t'][0] == 'rec' and cls in self.T.ancestors(argexprs[0]['t'][2]):
                lv = ex.lv(st, argexprs[0])
                return ex.copy_value(st, t, lv) if st.pc is not FALSE else None
            r = self.laz.build(ex, st, t, argexprs)
            if r is not NotImplemented:
                return r
            raise Limit('constructor of %s' % cls)
        best = min(cands, key=lambda c: (sum(c[0]), c[1]))
        if sum(1 for c in cands if sum(c[0]) == sum(best[0]) and c[1] == best[1]) > 1:
            raise Limit('ambiguous constructor of %s' % cls)
        f = self.T.prog.funs[best[2]]
        argexprs = list(argexprs) + [p['def'] for p in f['params'][len(argexprs):]]
        if f.get('body') is None and (f.get('copy') or f.get('move')):
            lv = ex.lv(st, argexprs[0])
            return ex.copy_value(st, t, lv) if st.pc is not FALSE else None
        args = []
        for a, p in zip(argexprs, f['params']):
            pt = p['t']
            if pt[0] == 'ref' and (a['t'][0] != pt[1][0] or (a['t'][0] in ('int', 'flt', 'bool') and a['t'] != pt[1])):
                v = ex.ev(st, a)
                if isinstance(v, Term) and pt[1][0] in ('int', 'flt', 'bool'):
                    v = ex.convert(st, v, a['t'], pt[1])
                args.append(ex.cell(st, self.T.adapt(ex, st, v, pt[1])))
            elif pt[0] == 'ref' and pt[1][0] == 'rec' and a['t'][0] == 'rec' and self.T.is_std(pt[1]) and norm(a['t'][1]) != norm(pt[1][1]):
                args.append(ex.cell(st, self.T.adapt(ex, st, ex.ev(st, a), pt[1])))
            else:
                x = ex.bind_arg(st, a, pt)
                if isinstance(x, Term) and pt[0] in ('int', 'flt', 'bool') and a['t'] != pt:
                    x = ex.convert(st, x, a['t'], pt)
                if isinstance(x, tuple) and x[0] == 'obj' and pt[0] == 'ref' and pt[1][0] == 'rec' and x[2] != pt[1][2] and not self.T.is_std(pt[1]):
                    x = ('obj', x[1], pt[1][2])
                args.append(x)
            if st.pc is FALSE:
                return None
        return ex.construct(st, best[2], cls, args)

    def match(self, a, pt):
        at = a['t']
        if pt[0] == 'ref':
            pt = pt[1]
        if at == pt:
            return 0
        if at[0] == 'rec' and pt[0] == 'rec':
            if at[2] == pt[2]:
                return 0
            if not self.T.is_std(at) and pt[2] in self.T.ancestors(at[2]):
                return 1 + self.T.ancestors(at[2]).index(pt[2])
            if self.T.is_stream(at) and self.T.is_stream(pt):
                return 1
            if norm(at[1]) == norm(pt[1]) == 'std::shared_ptr':
                x, y = at[3][0], pt[3][0]
                return 1 if y[2] in self.T.ancestors(x[2]) else None
            if norm(pt[1]) == 'std::optional' and at == pt[3][0]:
                return 3
            return None
        if at[0] in ('int', 'flt', 'bool') and pt[0] in ('int', 'flt', 'bool'):
            return 1 if at[0] == pt[0] else 2
        if at[0] in ('ptr', 'arr') and pt[0] == 'rec' and norm(pt[1]) == 'std::basic_string':
            return 3
        if pt[0] == 'rec' and norm(pt[1]) == 'std::optional':
            m = self.match(a, pt[3][0])
            return None if m is None else m + 3
        if at[0] == 'null' and (pt[0] == 'ptr' or pt[0] == 'rec' and norm(pt[1]) == 'std::shared_ptr'):
            return 2
        if at[0] == 'ptr' and pt[0] == 'ptr':
            return 0 if at[1] == pt[1] else 1
        if at[0] == 'arr' and pt[0] == 'ptr':
            return 1
        return None

    def std_build(self, ex, st, t, argexprs):
        fake = {'t': t, 'args': argexprs, 'k': 'ctor', 'pt': [a['t'] for a in argexprs], 'cls': t, 'q': '', 'f': ''}
        return self.ctor(ex, st, fake)

    def ctor(self, ex, st, e):
        t = e['t']
        if t[0] != 'rec':
            return NotImplemented
        if t[2].startswith('lazperf'):
            return self.laz.ctor(ex, st, e)
        if not self.T.is_std(t):
            return NotImplemented
        f = norm(t[1])
        args = [a for a in e['args'] if not (a['t'][0] == 'rec' and norm(a['t'][1]) == 'std::allocator') and a['k'] != 'defarg_']
        if f in ('std::runtime_error', 'std::exception', 'std::invalid_argument', 'std::out_of_range', 'std::logic_error'):
            return Opaque('exception')
        if f in ('std::allocator', 'std::hash', 'std::less', 'std::equal_to'):
            return Opaque(f)
        if f in ('std::vector', 'std::basic_string'):
            return self.seq_ctor(ex, st, t, args, f)
        if f == 'std::array':
            return ex.ev(st, args[0]) if args else self.T.zero(ex, t)
        if f in ('std::map', 'std::unordered_map', 'std::set'):
            if not args:
                return self.T.std_empty(ex, t, None)
            if len(args) == 1 and args[0]['t'][0] == 'rec' and norm(args[0]['t'][1]) == f:
                return ex.ev(st, args[0])
            raise Limit('map constructor')
        if f == 'std::pair':
            vt = t[3]
            if len(args) == 1:
                v = ex.ev(st, args[0])
                return v
            if len(args) == 2:
                a = self.argv(ex, st, {'args': args}, 0, vt[0])
                b = self.argv(ex, st, {'args': args}, 1, vt[1])
                return Rec('std::pair', {'first': a, 'second': b})
        if f == 'std::optional':
            if not args:
                return Opt(FALSE, self.T.sym(ex, t[3][0], '%noopt', ()))
            v = ex.ev(st, args[0])
            if isinstance(v, Opt):
                return v
            if isinstance(v, Opaque) or args[0]['t'][0] == 'rec' and norm(args[0]['t'][1]) == 'std::nullopt_t':
                return Opt(FALSE, self.T.sym(ex, t[3][0], '%noopt', ()))
            if isinstance(v, Term) and args[0]['t'] != t[3][0] and t[3][0][0] in ('int', 'flt', 'bool'):
                v = ex.convert(st, v, args[0]['t'], t[3][0])
            return Opt(TRUE, self.T.adapt(ex, st, v, t[3][0]))
        if f in ('std::shared_ptr', 'std::unique_ptr'):
            if not args:
                return I(0)
            v = ex.ev(st, args[0])
            return I(0) if isinstance(v, Opaque) else v
        if f == 'std::fpos':
            return ex.ev(st, args[0])
        if f == '__gnu_cxx::__normal_iterator':
            return ex.ev(st, args[0])
        if f in ('std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
            return ex.ev(st, args[0])
        if f == 'std::ostream_iterator':
            return BackIt(ex.lv(st, args[0]), 'ostream')
        if f == 'std::back_insert_iterator':
            return ex.ev(st, args[0])
        if f in ('std::basic_stringstream', 'std::basic_istringstream', 'std::basic_ostringstream'):
            s = self.T.std_empty(ex, t, None)
            if args and args[0]['t'][0] == 'rec' and norm(args[0]['t'][1]) == 'std::basic_string':
                v = ex.ev(st, args[0])
                s = s.set('data', smap(v, uchar))
            return s
        if f == 'std::basic_fstream':
            if not args:
                return self.T.std_empty(ex, t, None)
            raise Limit('opening a file')
        if f == 'std::function':
            return ex.ev(st, args[0])
        if f == 'std::initializer_list':
            return ex.ev(st, args[0])
        raise Limit('no model of the constructor of ' + f)

    def seq_ctor(self, ex, st, t, args, f):
        et = t[3][0]
        if not args:
            return Seq()
        a0 = args[0]
        a0t = a0['t']
        if len(args) == 1:
            if a0t[0] == 'int':
                n = ex.ev(st, a0)
                return self.filled(ex, n, self.T.zero(ex, et))
            v = ex.ev(st, a0)
            if isinstance(v, Seq):
                if a0t[0] == 'rec' and norm(a0t[1]) in ('std::vector', 'std::basic_string'):
                    return v
                return v
            return self.chars(ex, st, v)
        if len(args) >= 2 and a0t[0] == 'int':
            n = ex.ev(st, a0)
            v = self.T.adapt(ex, st, ex.ev(st, args[1]), et)
            return self.filled(ex, n, v)
        a = ex.ev(st, a0)
        if f == 'std::basic_string' and args[1]['t'][0] == 'int':
            n = ex.ev(st, args[1])
            if isinstance(a, Str):
                if n.op == 'int' and n.a <= len(a.b):
                    return bytes_lit(a.b[:n.a])
                raise Limit('string from a literal and a length')
            b = self.mem_bytes(ex, st, a, n)
            return smap(b, schar)
        b = ex.ev(st, args[1])
        s = self.rng(ex, st, a, b)
        if et[0] == 'int' and et[1] == 8:
            return smap(s, schar if et[2] else uchar)
        return s

    def filled(self, ex, n, v):
        return tab(n, lambda k: v)

    def lazperf_default(self, ex, st, cls):
        return self.laz.default(ex, st, cls)
    def sym_extra(self, ex, key, ref):
        return self.laz.sym_extra(ex, key, ref)

def lv_ite(c, a, b):
    from .exec import lv_ite as f
    return f(c, a, b)


"""Hierarchy entries, nodes and pages (C10)."""
from ..spec import *
from .geometry import keyof, kvalid, krec, keq, KEY
from .streams import *

E = 'copc::Entry'
NODE, PAGE, PI = 'copc::Node', 'copc::Page', 'copc::Internal::PageInternal'
NOOFF = I((1 << 64) - 1)
FIELDS = ('offset', 'byte_size', 'point_count')

def ekey(c, lv):
    return keyof(c, c.flv('key', lv))
def evalid(c, lv):
    return and_(le(I(0), c.get('byte_size', lv)), kvalid(ekey(c, lv)))
def pvalid(c, lv):
    return and_(or_(c.get('loaded', lv), le(I(0), c.get('byte_size', lv))), kvalid(ekey(c, lv)))
def esame(c, a, b):
    return and_(*[eq(c.get(f, a), c.get(f, b)) for f in FIELDS] + [keq(ekey(c, a), ekey(c, b))])
def eset(c, key, offset, size, count, lv=None):
    c.set('key', key, lv)
    c.set('offset', offset, lv)
    c.set('byte_size', size, lv)
    c.set('point_count', count, lv)
def ecopy(c, src, lv=None):
    eset(c, c.get('key', src), *[c.get(f, src) for f in FIELDS], lv)
def invalid(c):
    return krec(c, *[I(-1)] * 4)
def mkentry(c, key, offset, size, count):
    return c.rec(E, key=key, offset=offset, byte_size=size, point_count=count)

@contract('Entry::Entry()', 'C10')
def _(c):
    eset(c, invalid(c), NOOFF, I(-1), I(-1))
@contract('Entry::Entry(VoxelKey, u64, int, int)', 'C10')
def _(c):
    eset(c, c.a(0), c.a(1), c.a(2), c.a(3))
@contract('Entry::IsValid() const', 'C10')
def _(c):
    c.ret(evalid(c, c.this))
@contract('Entry::IsPage() const', 'C10', dyns=[E, NODE])
def _(c):
    c.ret(and_(evalid(c, c.this), eq(c.get('point_count'), I(-1))))
@contract('Entry::IsEqual(const Entry &) const', 'C10')
def _(c):
    c.ret(esame(c, c.this, c.lv(0)))

def entry_bytes(key, offset, size, count):
    b = []
    for a in 'dxyz':
        b += le_bytes(key[a], 4)
    return b + le_bytes(offset, 8) + le_bytes(size, 4) + le_bytes(count, 4)
def pack_of(c, lv):
    return entry_bytes(ekey(c, lv), *[c.get(f, lv) for f in FIELDS])

@contract('Entry::Pack(ostream &)', 'C10', pre=lambda c: appending(c, c.lv(0)))
def _(c):
    put(c, c.lv(0), lit(pack_of(c, c.this)))

def parse_entry(c, at, off=0):
    o = off if isinstance(off, Term) else I(off)
    g = lambda i, n, s: get_int(at, add(o, I(i)), n, s)
    return mkentry(c, krec(c, *[g(4 * i, 4, True) for i in range(4)]), g(16, 8, False), g(24, 4, True), g(28, 4, True))

def read_upto(c, lv, n):
    """read n bytes; when they are not there, what is left is consumed and the stream fails; returns (are they there, at)"""
    s = c.read(lv)
    d, g, f = s.f['data'], s.f['g'], s.f['fail']
    n = n if isinstance(n, Term) else I(n)
    ok = and_(not_(f), le(add(g, n), d.n))
    c.write(lv, s.set('g', ite(ok, add(g, n), ite(f, g, ite(le(g, d.n), d.n, g)))).set('fail', not_(ok)))
    return ok, lambda i: seq_get(d, add(g, i if isinstance(i, Term) else I(i)))
@contract('Entry::Unpack(istream &)', 'C10')
def _(c):
    ok, at = read_upto(c, c.lv(0), 32)
    c.ret(vite(ok, parse_entry(c, at), c.havoc(['rec', E, E, []])))

@lemma('an entry read back is the entry written, and 32 bytes are consumed', 'C10')
def _(L):
    e = L.object(E, 'e')
    s = L.cellv(L.var(['rec', 'std::basic_iostream', 'std::basic_iostream', []], 's'))
    st = L.read(s)
    L.write(s, st.set('p', st.f['data'].n).set('g', st.f['data'].n))   # both positions at the end
    st = L.read(s)
    L.call(L.fid('Entry::Pack(ostream &)'), e, [s])
    mid = L.read(s)
    L.prove('32 bytes written', eq(mid.f['data'].n, add(st.f['data'].n, I(32))))
    r = L.cellv(L.call(L.fid('Entry::Unpack(istream &)'), None, [s]))
    L.prove('the same entry', esame(L, e, r))
    L.prove('32 bytes consumed', eq(L.read(s).f['g'], add(st.f['g'], I(32))))

# ------------------------------------------------------------------ nodes and pages
@contract('Node::Node()', 'C10')
def _(c):
    eset(c, invalid(c), NOOFF, I(-1), I(-1))
    c.set('page_key', invalid(c))
@contract('Node::Node(const Entry &, const VoxelKey &)', 'C10')
def _(c):
    ecopy(c, c.lv(0))
    c.set('page_key', c.a(1))
@contract('Node::operator==(const Node &)', 'C10')
def _(c):
    c.ret(esame(c, c.this, c.lv(0)))
@contract('Page::Page(Entry)', 'C10')
def _(c):
    v = c.a(0)
    eset(c, c.f(v, 'key'), *[c.f(v, f) for f in FIELDS])
    c.set('loaded', FALSE)
@contract('Page::Page(VoxelKey, long, int)', 'C10')
def _(c):
    eset(c, c.a(0), wrap(c.a(1), 64, False), c.a(2), I(-1))
    c.set('loaded', FALSE)
@contract('Page::IsValid() const', 'C10')
def _(c):
    c.ret(pvalid(c, c.this))
@contract('Page::IsPage() const', 'C10', dyns=[PAGE, PI])
def _(c):
    c.ret(and_(pvalid(c, c.this), eq(c.get('point_count'), I(-1))))
@contract('operator==(const Page &, const Page &)', 'C10')
def _(c):
    c.ret(and_(esame(c, c.lv(0), c.lv(1)), iff(c.get('loaded', c.lv(0)), c.get('loaded', c.lv(1)))))

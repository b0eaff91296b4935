"""Dimension extents (C12)."""
from ..spec import *
from .point import fmt_ok
from .utils import base_dims
from .streams import *
from .geometry import axes

X = 'CopcExtents::'
XCLS, ECLS = 'copc::CopcExtents', 'copc::CopcExtent'
VCLS = 'copc::las::CopcExtentsVlr'
VI = VCLS + '::CopcExtent'
F4 = ('minimum', 'maximum', 'mean', 'var')
xk = fresh('xk', 'I', 0, None)

def gt(a, b):
    return dcmp('lt', b, a)
def bad(v):
    """(minimum, maximum, mean, var) that no extent may have"""
    return or_(gt(v[0], v[1]), dcmp('lt', v[3], D(0.0)))
def vals(c, lv):
    return [c.get(f, lv) for f in F4]
def eput(c, v, lv=None):
    for f, x in zip(F4, v):
        c.set(f, x, lv)
DEF = [D(0.0), D(0.0), D(0.0), D(1.0)]

# ------------------------------------------------------------------ one extent
def vsetup(c):
    pass
@contract('CopcExtent::CopcExtent()', 'C12')
def _(c):
    eput(c, DEF)
@contract('CopcExtent::CopcExtent(double, double, double, double)', 'C12')
def _(c):
    v = [c.a(i) for i in range(4)]
    if c.throws(bad(v)):
        return
    eput(c, v)
@contract('CopcExtent::CopcExtent(const std::vector<double> &)', 'C12')
def _(c):
    s = c.a(0)
    four = eq(s.n, I(4))
    if c.throws(not_(or_(eq(s.n, I(2)), four))):
        return
    g = lambda i: seq_get(s, I(i))
    v = [g(0), g(1), ite(four, g(2), D(0.0)), ite(four, g(3), D(1.0))]
    if c.throws(bad(v)):
        return
    eput(c, v)
@contract('CopcExtent::CopcExtent(const CopcExtent &)', 'C12')
def _(c):
    v = vals(c, c.lv(0))
    if c.throws(bad(v)):
        return
    eput(c, v)
for op, neg in (('==', False), ('!=', True)):
    def cmpop(op, neg):
        @contract('CopcExtent::operator%s(const CopcExtent &) const' % op, 'C12')
        def _(c):
            e = and_(*[dcmp('eq', a, b) for a, b in zip(vals(c, c.this), vals(c, c.lv(0)))])
            c.ret(not_(e) if neg else e)
    cmpop(op, neg)

# ------------------------------------------------------------------ a set of extents
def eobj(c, ref):
    return c.obj(ref, ECLS)
def slot(c, i, lv=None):
    """reference to the extent in slot i"""
    return seq_get(c.get('extents_', lv), i if isinstance(i, Term) else I(i))
def nslots(fmt, eb):
    return add(base_dims(fmt), eb)
def xinv(c, lv):
    fmt, n = c.get('point_format_id_', lv), c.get('extents_', lv).n
    return and_(fmt_ok(fmt), le(base_dims(fmt), n), le(n, add(base_dims(fmt), I(65535))))
def pre(c):
    return [('one slot per dimension of the format and extra-byte item', xinv(c, c.this))]
def pre0(c):
    return [('one slot per dimension of the format and extra-byte item', xinv(c, c.lv(0)))]
def fam(c):
    c.family(c.get('extents_'))
def exists_slot(c, n, f):
    return not_(c.ex.forall(n, xk, not_(f(xk))))
def build(c, fmt, ext, n, f):
    """new extents with the four values f(slot)"""
    c.set('point_format_id_', fmt)
    c.set('has_extended_stats_', ext)
    def one(k):
        return c.new(ECLS, dict(zip(F4, f(k))))
    c.set('extents_', c.each(n, one))

@contract(X + 'CopcExtents(i8, u16, bool)', 'C12')
def _(c):
    if c.throws(not_(fmt_ok(c.a(0)))):
        return
    build(c, c.a(0), c.a(2), nslots(c.a(0), c.a(1)), lambda k: DEF)

@contract(X + 'CopcExtents(const CopcExtents &)', 'C12', pre=pre0)
def _(c):
    o = c.lv(0)
    v = c.get('extents_', o)
    if c.throws(exists_slot(c, v.n, lambda k: bad(vals(c, eobj(c, seq_get(v, k)))))):
        return
    build(c, c.get('point_format_id_', o), c.get('has_extended_stats_', o), v.n, lambda k: vals(c, eobj(c, seq_get(v, k))))

def adapted(c, o, fmt, eb):
    """values of slot k of a set of extents rebuilt for another format or number of descriptors"""
    f0 = c.get('point_format_id_', o)
    v = c.get('extents_', o)
    same_eb = eq(eb, sub(v.n, base_dims(f0)))
    def one(k):
        base = base_dims(fmt)
        def take(i):
            return vals(c, eobj(c, seq_get(v, i)))
        common = or_(lt(k, I(14)), and_(lt(k, I(17)), le(I(7), fmt), le(I(7), f0)), and_(eq(k, I(17)), eq(fmt, I(8)), eq(f0, I(8))))
        d, e = take(k), take(add(sub(k, base), base_dims(f0)))
        return [ite(lt(k, base), ite(common, x, z), ite(same_eb, y, z)) for x, y, z in zip(d, e, DEF)]
    return one
@contract(X + 'CopcExtents(const CopcExtents &, i8, u16, bool)', 'C12', pre=pre0)
def _(c):
    fmt, eb = c.a(1), c.a(2)
    if c.throws(not_(fmt_ok(fmt))):
        return
    build(c, fmt, c.a(3), nslots(fmt, eb), adapted(c, c.lv(0), fmt, eb))

@contract(X + 'CopcExtents(const las::CopcExtentsVlr &, i8, u16, bool)', 'C12')
def _(c):
    fmt, eb = c.a(1), c.a(2)
    if c.throws(not_(fmt_ok(fmt))):
        return
    s = c.get('items', c.lv(0))
    if c.throws(ne(s.n, nslots(fmt, eb))):
        return
    v = lambda k: [c.f(seq_get(s, k), 'minimum'), c.f(seq_get(s, k), 'maximum'), D(0.0), D(1.0)]
    if c.throws(exists_slot(c, s.n, lambda k: bad(v(k)))):
        return
    build(c, fmt, c.a(3), s.n, v)

for n, f in (('PointFormatId() const', 'point_format_id_'), ('HasExtendedStats() const', 'has_extended_stats_'), ('Extents()', 'extents_')):
    def acc(f):
        def get(c):
            c.ret(c.get(f))
        return get
    contract(X + n, 'C12')(acc(f))
@contract(X + 'NumberOfExtents() const', 'C12')
def _(c):
    c.ret(c.get('extents_').n)
@contract(X + 'NumberOfExtents(i8, u16)', 'C12')
def _(c):
    if c.throws(not_(fmt_ok(c.a(0)))):
        return
    c.ret(nslots(c.a(0), c.a(1)))
@contract('PointBaseNumberExtents(const i8 &)', 'C12 C13')
def _(c):
    if c.throws(not_(fmt_ok(c.a(0)))):
        return
    c.ret(base_dims(c.a(0)))
@contract(X + 'ByteSize(i8, u16)', 'C12')
def _(c):
    if c.throws(not_(fmt_ok(c.a(0)))):
        return
    c.ret(mul(I(16), nslots(c.a(0), c.a(1))))

def extent_rec(c, v):
    return c.rec(ECLS, **dict(zip(F4, v)))
@contract(X + 'Extents() const', 'C12', pre=pre)
def _(c):
    v = c.get('extents_')
    if c.throws(exists_slot(c, v.n, lambda k: bad(vals(c, eobj(c, seq_get(v, k)))))):
        return
    c.ret(tab(v.n, lambda k: extent_rec(c, vals(c, eobj(c, seq_get(v, k))))))

SLOTS = ('X', 'Y', 'Z', 'Intensity', 'ReturnNumber', 'NumberOfReturns', 'ScannerChannel', 'ScanDirectionFlag', 'EdgeOfFlightLine',
         'Classification', 'UserData', 'ScanAngle', 'PointSourceId', 'GpsTime', 'Red', 'Green', 'Blue', 'Nir')
def accessor(i, n):
    def lacks(c):
        f = c.get('point_format_id_')
        return FALSE if i < 14 else not_(or_(eq(f, I(7)), eq(f, I(8)))) if i < 17 else ne(f, I(8))
    @contract(X + n + '()', 'C12', pre=pre)
    def _(c):
        if c.throws(lacks(c)):
            return
        c.ret(slot(c, i))
    @contract(X + n + '(std::shared_ptr<CopcExtent>)', 'C12', pre=pre)
    def _(c):
        if c.throws(lacks(c)):
            return
        c.set('extents_', seq_set(c.get('extents_'), I(i), c.a(0)))
for _i, _n in enumerate(SLOTS):
    accessor(_i, _n)

@contract(X + 'ExtraBytes()', 'C12', pre=pre)
def _(c):
    v, b = c.get('extents_'), base_dims(c.get('point_format_id_'))
    c.ret(tab(sub(v.n, b), lambda k: seq_get(v, add(b, k))))
@contract(X + 'ExtraBytes(std::vector<std::shared_ptr<CopcExtent>>)', 'C12', pre=pre)
def _(c):
    v, b, s = c.get('extents_'), base_dims(c.get('point_format_id_')), c.a(0)
    if c.throws(ne(s.n, sub(v.n, b))):
        return
    c.set('extents_', tab(v.n, lambda k: ite(lt(k, b), seq_get(v, k), seq_get(s, sub(k, b)))))

# ------------------------------------------------------------------ VLRs
def item(c, a, b):
    return c.rec(VI, minimum=a, maximum=b)
def vlr(c, n, f):
    return c.rec(VCLS, items=tab(n, f))
@contract(X + 'ToLazPerf(const CopcExtent &, const CopcExtent &, const CopcExtent &) const', 'C12', pre=pre)
def _(c):
    v = c.get('extents_')
    c.ret(vlr(c, v.n, lambda k: item(c, *vals(c, eobj(c, seq_get(v, k)))[:2])))
@contract(X + 'ToLazPerfExtended() const', 'C12', pre=pre)
def _(c):
    v = c.get('extents_')
    c.ret(vlr(c, v.n, lambda k: item(c, *vals(c, eobj(c, seq_get(v, k)))[2:])))
@contract(X + 'SetExtendedStats(const las::CopcExtentsVlr &)', 'C12', pre=pre, setup=fam)
def _(c):
    v, s = c.get('extents_'), c.get('items', c.lv(0))
    if c.throws(or_(not_(c.get('has_extended_stats_')), ne(s.n, v.n))):
        return
    def one(k):
        o = eobj(c, seq_get(v, k))
        it = seq_get(s, k)
        c.set('mean', c.f(it, 'minimum'), o)
        c.set('var', c.f(it, 'maximum'), o)
    c.each(v.n, one)

W = 'las::CopcExtentsVlr::'
@contract(W + 'CopcExtent::CopcExtent()', 'C12')
def _(c):
    c.set('minimum', D(0.0))
    c.set('maximum', D(0.0))
@contract(W + 'CopcExtent::CopcExtent(double, double)', 'C12')
def _(c):
    c.set('minimum', c.a(0))
    c.set('maximum', c.a(1))
@contract(W + 'CopcExtentsVlr()', 'C12')
def _(c):
    c.set('items', Seq())
@contract(W + 'CopcExtentsVlr(int)', 'C12', pre=lambda c: [('a count', le(I(0), c.a(0)))])
def _(c):
    c.set('items', tab(c.a(0), lambda k: item(c, D(0.0), D(0.0))))
@contract(W + 'addItem(const las::CopcExtentsVlr::CopcExtent &)', 'C12')
def _(c):
    c.set('items', cat(c.get('items'), lit([c.a(0)])))
@contract(W + 'setItem(int, const las::CopcExtentsVlr::CopcExtent &)', 'C12', pre=lambda c: [('an index', and_(le(I(0), c.a(0)), lt(c.a(0), c.get('items').n)))])
def _(c):
    c.set('items', seq_set(c.get('items'), c.a(0), c.a(1)))
@contract(W + 'size() const', 'C12')
def _(c):
    c.ret(mul(I(16), c.get('items').n))
def vhead(c, kind, w):
    h = c.zero('lazperf::' + kind)
    c.set('user_id', bytes_lit(b'copc'), h)
    c.set('record_id', I(10000), h)
    c.set('data_length', wrap(mul(I(16), c.get('items').n), w, False), h)
    c.set('description', bytes_lit(b'COPC extents'), h)
    c.ret(c.read(h))
@contract(W + 'header() const', 'C12')
def _(c):
    vhead(c, 'vlr_header', 16)
@contract(W + 'eheader() const', 'C12')
def _(c):
    vhead(c, 'evlr_header', 64)
def parse_items(c, at, n):
    d = lambda k, o: dfrom([at(add(mul(I(16), k), I(o + i))) for i in range(8)])
    return tab(n, lambda k: item(c, d(k, 0), d(k, 8)))
def nitems(size):
    return fdiv_(size, 16)
def rpre(c):
    return [('a size', le(I(0), c.a(1)))] + readable(c, c.lv(0), mul(I(16), nitems(c.a(1))))
@contract(W + 'read(istream &, int)', 'C12', pre=rpre)
def _(c):
    n = nitems(c.a(1))
    at = take(c, c.lv(0), mul(I(16), n))
    c.set('items', parse_items(c, at, n))
@contract(W + 'create(istream &, int)', 'C12', pre=rpre)
def _(c):
    n = nitems(c.a(1))
    at = take(c, c.lv(0), mul(I(16), n))
    c.ret(c.rec(VCLS, items=parse_items(c, at, n)))
def items_bytes(c, s):
    k = fresh('it', 'I', 0, None)
    e = seq_get(s, k)
    return Seq([Flat(s.n, k, lit(d_bytes(c.f(e, 'minimum')) + d_bytes(c.f(e, 'maximum'))))])
@contract(W + 'write(ostream &) const', 'C12', pre=lambda c: within(c, c.lv(0)))
def _(c):
    over(c, c.lv(0), items_bytes(c, c.get('items')))

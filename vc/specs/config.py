"""Extra-byte descriptors (C13, C25), COPC info and configurations (C14)."""
from ..spec import *
from .point import fmt_ok, base_size
from .header import HCLS, HFIELDS, hcopy
from .utils import vec, div_
from .streams import le_bytes, d_bytes
from .extents import XCLS, ECLS, F4, bad, eobj, xinv, nslots, vals, exists_slot, DEF
from . import extents as xt

EB = 'lazperf::eb_vlr'
EBF = 'lazperf::eb_vlr::ebfield'
SIZES = (0, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 2, 2, 4, 4, 8, 8, 16, 16, 8, 16, 3, 3, 6, 6, 12, 12, 24, 24, 12, 24)
ek = fresh('ek', 'I', 0, None)

# ------------------------------------------------------------------ C13
def type_size(t):
    """LAS 1.4 R15 table 24 / deprecated types: bytes of one value"""
    r = I(0)
    for i in range(1, 31):
        r = ite(eq(t, I(i)), I(SIZES[i]), r)
    return r
def item_size(c, it):
    t = c.f(it, 'data_type')
    return ite(eq(t, I(0)), c.f(it, 'options'), type_size(t))
def illegal(c, items):
    return not_(c.ex.forall(items.n, ek, le(c.f(seq_get(items, ek), 'data_type'), I(30))))
def eb_bytes(c, items):
    if items.n is I(0):
        return I(0)
    return summ(items.n, ek, item_size(c, seq_get(items, ek)))
def few(c, items):
    """an extra-byte VLR of at most 65535 bytes has at most 341 items; int sums need far fewer than 2^31/255"""
    return [('at most 65535 extra-byte items', le(items.n, I(65535)))]

@contract('las::NumBytesFromExtraBytes(const std::vector<lazperf::eb_vlr::ebfield> &)', 'C13', pre=lambda c: few(c, c.a(0)))
def _(c):
    v = c.a(0)
    if c.throws(illegal(c, v)):
        return
    c.ret(eb_bytes(c, v))

# ------------------------------------------------------------------ C25
def raw(c, a, b, f):
    """the same bytes"""
    x, y = c.f(a, f), c.f(b, f)
    n = 2 if f == 'reserved' else 3
    by = (lambda v: [v]) if f == 'reserved' else (lambda v: le_bytes(v, 8)) if f in ('no_data', 'minval', 'maxval') else d_bytes
    return and_(*[eq(p, q) for i in range(n) for p, q in zip(by(seq_get(x, I(i))), by(seq_get(y, I(i))))])
def text_eq(c, a, b):
    if a is b:
        return TRUE
    return and_(eq(a.n, b.n), c.ex.forall(a.n, ek, eq(seq_get(a, ek), seq_get(b, ek))))
@contract('lazperf::operator==(const lazperf::eb_vlr::ebfield &, const lazperf::eb_vlr::ebfield &)', 'C25')
def _(c):
    a, b = c.a(0), c.a(1)
    c.ret(and_(*[raw(c, a, b, f) for f in ('reserved', 'no_data', 'minval', 'maxval', 'scale', 'offset')],
               eq(c.f(a, 'data_type'), c.f(b, 'data_type')), eq(c.f(a, 'options'), c.f(b, 'options')),
               text_eq(c, c.f(a, 'name'), c.f(b, 'name')), text_eq(c, c.f(a, 'description'), c.f(b, 'description'))))

# ------------------------------------------------------------------ COPC info
ICLS = 'copc::CopcInfo'
CENTRE = ('center_x', 'center_y', 'center_z', 'halfsize', 'spacing')
ROOT = ('root_hier_offset', 'root_hier_size')
IF = CENTRE + ROOT
@contract('CopcInfo::CopcInfo()', 'C14')
def _(c):
    for f in CENTRE:
        c.set(f, D(0.0))
    for f in ROOT:
        c.set(f, I(0))
@contract('CopcInfo::CopcInfo(const lazperf::copc_info_vlr &)', 'C14 C15')
def _(c):
    for f in IF:
        c.set(f, c.get(f, c.lv(0)))
@contract('CopcInfo::ToLazPerf(const CopcExtent &) const', 'C14')
def _(c):
    o = c.zero('lazperf::copc_info_vlr')
    for f in IF:
        c.set(f, c.get(f), o)
    c.set('gpstime_minimum', c.get('minimum', c.lv(0)), o)
    c.set('gpstime_maximum', c.get('maximum', c.lv(0)), o)
    c.ret(c.read(o))
@lemma('COPC info survives its on-disk form', 'C14')
def _(L):
    i, e = L.object(ICLS, 'info'), L.object(ECLS, 'gps')
    d = L.cellv(L.call(L.fid('CopcInfo::ToLazPerf(const CopcExtent &) const'), i, [e]))
    r = L.raw(ICLS)
    L.call(L.fid('CopcInfo::CopcInfo(const lazperf::copc_info_vlr &)'), r, [d])
    for f in IF:
        L.prove_same(f, L.get(f, r), L.get(f, i), L.T.ftype(ICLS + '::' + f))

# ------------------------------------------------------------------ configurations
LC = 'las::LazConfig'
def hvals(c, src):
    return {f: c.get(f, src) for f in HFIELDS}
def hobj(c, lv=None):
    """the header object of a configuration"""
    return c.obj(c.get('header_', lv), HCLS)
def ebobj(c, lv=None):
    return c.obj(c.get('eb_vlr_', lv), EB)
def iobj(c, lv=None):
    return c.obj(c.get('copc_info_', lv), ICLS)
def xobj(c, lv=None):
    return c.obj(c.get('copc_extents_', lv), XCLS)
def copy_obj(c, cls, src):
    return c.new(cls, {k: c.get(k, src) for k, t in c.T.fields(cls)})
def set_config(c, header, wkt, eb):
    """own copies of the header values, the text and the descriptors"""
    c.set('header_', c.new(HCLS, header))
    c.set('wkt_', wkt)
    c.set('eb_vlr_', copy_obj(c, EB, eb))
def unbuildable(c, x):
    """some extent of the set cannot be constructed"""
    v = c.get('extents_', x)
    return exists_slot(c, v.n, lambda k: bad(vals(c, eobj(c, seq_get(v, k)))))
def copy_extents(c, x):
    """a deep copy, or None when an extent is not constructible"""
    v = c.get('extents_', x)
    if c.throws(unbuildable(c, x)):
        return None
    def one(k):
        return c.new(ECLS, dict(zip(F4, vals(c, eobj(c, seq_get(v, k))))))
    return c.new(XCLS, {'point_format_id_': c.get('point_format_id_', x), 'has_extended_stats_': c.get('has_extended_stats_', x),
                        'extents_': c.each(v.n, one)})
def default_extents(c, fmt, eb, ext):
    return c.new(XCLS, {'point_format_id_': fmt, 'has_extended_stats_': ext,
                        'extents_': c.each(nslots(fmt, eb), lambda k: c.new(ECLS, dict(zip(F4, DEF))))})
def new_header(c, fmt, items, scale, offset, flag):
    """the header of a new configuration, or None when it throws"""
    if c.throws(not_(fmt_ok(fmt))):
        return None
    if c.throws(illegal(c, items)):
        return None
    h = c.zero(HCLS)
    for f, v in (('point_format_id_', fmt), ('point_record_length_', wrap(add(base_size(fmt), eb_bytes(c, items)), 16, False)),
                 ('scale_', scale), ('offset_', offset), ('copc_flag_', flag)):
        c.set(f, v, h)
    return hvals(c, h)

@contract(LC + '::LazConfig()', 'C14')
def _(c):
    c.set('header_', I(0))
    c.set('eb_vlr_', I(0))
    c.set('wkt_', Seq())
@contract(LC + '::LazConfig(const las::LasHeader &, string, const lazperf::eb_vlr &)', 'C14')
def _(c):
    set_config(c, hvals(c, c.lv(0)), c.a(1), c.lv(2))
@contract(LC + '::LazConfig(const i8 &, const Vector3 &, const Vector3 &, string, const lazperf::eb_vlr &, bool)', 'C14',
          pre=lambda c: few(c, c.get('items', c.lv(4))))
def _(c):
    h = new_header(c, c.a(0), c.get('items', c.lv(4)), c.a(1), c.a(2), c.a(5))
    if h is not None:
        set_config(c, h, c.a(3), c.lv(4))
def of_config(c, src, flag=None):
    h = hvals(c, hobj(c, src))
    if flag is not None:
        h['copc_flag_'] = flag
    set_config(c, h, c.get('wkt_', src), ebobj(c, src))
@contract(LC + '::LazConfig(const CopcConfig &)', 'C14')
def _(c):
    of_config(c, c.lv(0))
@contract(LC + '::LazConfig(const las::LazConfigWriter &)', 'C14')
def _(c):
    of_config(c, c.lv(0))
for n, f, cls in (('LasHeader() const', 'header_', HCLS), ('ExtraBytesVlr() const', 'eb_vlr_', EB)):
    def acc(f, cls):
        def get(c):
            c.ret(c.read(c.obj(c.get(f), cls)))
        return get
    contract(LC + '::' + n, 'C14')(acc(f, cls))
@contract(LC + '::Wkt() const', 'C14')
def _(c):
    c.ret(c.get('wkt_'))

LW = 'las::LazConfigWriter'
@contract(LW + '::LazConfigWriter(const i8 &, const Vector3 &, const Vector3 &, const string &, const lazperf::eb_vlr &)', 'C14',
          pre=lambda c: few(c, c.get('items', c.lv(4))))
def _(c):
    h = new_header(c, c.a(0), c.get('items', c.lv(4)), c.a(1), c.a(2), FALSE)
    if h is not None:
        set_config(c, h, c.a(3), c.lv(4))
@contract(LW + '::LazConfigWriter(const las::LazConfigWriter &)', 'C14')
def _(c):
    of_config(c, c.lv(0))
@contract(LW + '::LazConfigWriter(const las::LazConfig &)', 'C14')
def _(c):
    of_config(c, c.lv(0), FALSE)
@contract(LW + '::operator=(const las::LazConfigWriter &)', 'C14')
def _(c):
    of_config(c, c.lv(0))
    c.ret(c.this)
@contract(LW + '::LasHeader()', 'C14')
def _(c):
    c.ret(c.get('header_'))
@contract(LW + '::LasHeader() const', 'C14')
def _(c):
    c.ret(c.read(hobj(c)))

CC, CW = 'CopcConfig', 'CopcConfigWriter'
def copc_parts(c, info, extents):
    c.set('copc_info_', copy_obj(c, ICLS, info))
    x = copy_extents(c, extents)
    if x is not None:
        c.set('copc_extents_', x)
def xok(lv):
    """the extents a configuration is built from"""
    def p(c):
        return [('extents with one slot per dimension', xinv(c, lv(c)))]
    return p
@contract(CC + '::CopcConfig()', 'C14')
def _(c):
    for f in ('header_', 'eb_vlr_', 'copc_info_', 'copc_extents_'):
        c.set(f, I(0))
    c.set('wkt_', Seq())
def elements(c):
    h = hvals(c, c.lv(0))
    h['copc_flag_'] = TRUE
    set_config(c, h, c.a(3), c.lv(4))
    copc_parts(c, c.lv(1), c.lv(2))
for k in (CC, CW):
    contract(k + '::%s(const las::LasHeader &, const CopcInfo &, const CopcExtents &, const string &, const lazperf::eb_vlr &)' % k, 'C14',
             pre=xok(lambda c: c.lv(2)))(elements)
@contract(CC + '::CopcConfig(const las::LazConfig &, const CopcInfo &, const CopcExtents &)', 'C14', pre=xok(lambda c: c.lv(2)))
def _(c):
    of_config(c, c.lv(0), TRUE)
    copc_parts(c, c.lv(1), c.lv(2))
def fresh_config(c):
    items = c.get('items', c.lv(4))
    h = new_header(c, c.a(0), items, c.a(1), c.a(2), TRUE)
    if h is None:
        return
    set_config(c, h, c.a(3), c.lv(4))
    c.set('copc_info_', c.new(ICLS, {f: D(0.0) if f in CENTRE else I(0) for f in IF}))
    c.set('copc_extents_', default_extents(c, c.a(0), items.n, c.a(5)))
for k in (CC, CW):
    contract(k + '::%s(const i8 &, const Vector3 &, const Vector3 &, const string &, const lazperf::eb_vlr &, bool)' % k, 'C14',
             pre=lambda c: few(c, c.get('items', c.lv(4))))(fresh_config)
def of_copc(c, src):
    if c.throws(unbuildable(c, xobj(c, src))):
        return
    of_config(c, src, TRUE)
    copc_parts(c, iobj(c, src), xobj(c, src))
xsrc = xok(lambda c: xobj(c, c.lv(0)))
for n in ('CopcConfigWriter(const CopcConfig &)', 'CopcConfigWriter(const CopcConfigWriter &)', 'operator=(const CopcConfigWriter &)'):
    def _(c):
        of_copc(c, c.lv(0))
        if c.st.pc is not FALSE:
            c.ret(c.this)
    contract(CW + '::' + n, 'C14', pre=xsrc)(_)
for k in (CC, CW):
    @contract(k + '::CopcInfo() const', 'C14')
    def _(c):
        c.ret(c.read(iobj(c)))
    @contract(k + '::CopcExtents() const', 'C14', pre=lambda c: [('extents with one slot per dimension', xinv(c, xobj(c)))])
    def _(c):
        x = copy_extents(c, xobj(c))
        if x is not None:
            c.ret(c.read(c.obj(x, XCLS)))
for n, f in (('LasHeader()', 'header_'), ('CopcInfo()', 'copc_info_'), ('CopcExtents()', 'copc_extents_')):
    def acc(f):
        def get(c):
            c.ret(c.get(f))
        return get
    contract(CW + '::' + n, 'C14')(acc(f))
@contract(CW + '::LasHeader() const', 'C14')
def _(c):
    c.ret(c.read(hobj(c)))

# ------------------------------------------------------------------ resolution (C17)
def resolution(c, d, info):
    """spacing of the file halved once per level"""
    return div_(c.get('spacing', info), dop('pow', D(2.0), i2d(d)))
@contract('VoxelKey::Resolution(const las::LasHeader &, const CopcInfo &) const', 'C17')
def _(c):
    c.ret(resolution(c, c.get('d'), c.lv(1)))
@contract('VoxelKey::GetResolutionAtDepth(int, const las::LasHeader &, const CopcInfo &)', 'C17')
def _(c):
    c.ret(resolution(c, c.a(0), c.lv(2)))

"""LAS headers (C11) and VLR headers."""
from ..spec import *
from .point import fmt_ok, base_size
from .utils import vec, axes

H = 'las::LasHeader::'
HCLS = 'copc::las::LasHeader'
H14 = 'lazperf::header14'
TEXT = (('guid_', 'GUID', 16), ('system_identifier_', 'SystemIdentifier', 32), ('generating_software_', 'GeneratingSoftware', 32))
PLAIN = ('file_source_id', 'global_encoding', 'creation_day', 'creation_year')
NUM = PLAIN + ('point_record_length_', 'point_count_', 'point_offset_', 'vlr_count_', 'evlr_offset_', 'evlr_count_')
HFIELDS = NUM + ('point_format_id_', 'copc_flag_', 'max', 'min', 'scale_', 'offset_', 'points_by_return') + tuple(t[0] for t in TEXT)

for n, f in (('PointFormatId', 'point_format_id_'), ('PointRecordLength', 'point_record_length_'), ('PointCount', 'point_count_'),
             ('PointOffset', 'point_offset_'), ('VlrCount', 'vlr_count_'), ('EvlrCount', 'evlr_count_'), ('EvlrOffset', 'evlr_offset_'),
             ('IsCopc', 'copc_flag_')):
    def acc(f):
        def get(c):
            c.ret(c.get(f))
        return get
    contract(H + n + '() const', 'C11')(acc(f))

def texts(f, n, w):
    @contract(H + n + '() const', 'C11')
    def _(c):
        c.ret(c.get(f))
    @contract(H + n + '(const string &)', 'C11')
    def _(c):
        if c.throws(lt(I(w), c.a(0).n)):
            return
        c.set(f, c.a(0))
for f, n, w in TEXT:
    texts(f, n, w)

@contract(H + 'EbByteSize() const', 'C11 C13')
def _(c):
    f = c.get('point_format_id_')
    if c.throws(not_(fmt_ok(f))):
        return
    c.ret(wrap(sub(c.get('point_record_length_'), base_size(f)), 16, False))

@contract(H + 'SetGpsTimeBit()', 'C11')
def _(c):
    v = c.get('global_encoding')
    c.set('global_encoding', ite(eq(fmod_(v, 2), I(1)), v, add(v, I(1))))

def hdefault(c):
    for f in NUM:
        c.set(f, I(0))
    c.set('point_format_id_', I(6))
    c.set('copc_flag_', TRUE)
    z = vec(c, D(0.0), D(0.0), D(0.0))
    for f in ('max', 'min', 'offset_'):
        c.set(f, z)
    c.set('scale_', vec(c, D(0.01), D(0.01), D(0.01)))
    c.set('points_by_return', lit([I(0)] * 15))
    for f, n, w in TEXT:
        c.set(f, Seq())
def hcopy(c, src, lv=None):
    for f in HFIELDS:
        c.set(f, c.get(f, src), lv)

@contract(H + 'LasHeader()', 'C11')
def _(c):
    hdefault(c)
@contract(H + 'LasHeader(const las::LasHeader &)', 'C11')
def _(c):
    hcopy(c, c.lv(0))
@contract(H + 'LasHeader(const las::LasHeader &, bool)', 'C11')
def _(c):
    hcopy(c, c.lv(0))
    c.set('copc_flag_', c.a(1))
@contract(H + 'LasHeader(const las::LasHeader &, i8, u16, const Vector3 &, const Vector3 &)', 'C11')
def _(c):
    hcopy(c, c.lv(0))
    for i, f in enumerate(('point_format_id_', 'point_record_length_', 'scale_', 'offset_')):
        c.set(f, c.a(i + 1))
@contract(H + 'LasHeader(i8, u16, const Vector3 &, const Vector3 &, bool)', 'C11')
def _(c):
    hdefault(c)
    for i, f in enumerate(('point_format_id_', 'point_record_length_', 'scale_', 'offset_', 'copc_flag_')):
        c.set(f, c.a(i))
@contract(H + 'LasHeader(i8, u16, u32, u64, u32, const Vector3 &, const Vector3 &, u64, u32, bool)', 'C11')
def _(c):
    hdefault(c)
    for i, f in enumerate(('point_format_id_', 'point_record_length_', 'point_offset_', 'point_count_', 'vlr_count_', 'scale_',
                           'offset_', 'evlr_offset_', 'evlr_count_', 'copc_flag_')):
        c.set(f, c.a(i))

# ------------------------------------------------------------------ on-disk form
def fixed_text(s, w):
    """a text in a field of w bytes: its characters up to a NUL, then NULs"""
    out, stop = [], FALSE
    for i in range(w):
        inb = lt(I(i), s.n)
        ch = seq_get(s, I(i)) if inb is not FALSE else I(0)
        out.append(ite(or_(stop, not_(inb)), I(0), ch))
        stop = or_(stop, not_(inb), eq(ch, I(0)))
    return lit(out)
def field_text(c, s, w):
    """the text in a field: up to the first NUL"""
    return seq_slice(s, I(0), c.T.std.cstr_len(c.ex, s, I(0), I(w)))

@contract(H + 'ToLazPerf(u32, u64, u64, u32, bool, bool) const', 'C11')
def _(c):
    off, count, eoff, ecount, eb, ext = [c.a(i) for i in range(6)]
    copc = c.get('copc_flag_')
    if c.throws(and_(ext, not_(copc))):
        return
    h = c.zero(H14)
    put = lambda k, v: c.set(k, v, h)
    put('magic', bytes_lit(b'LASF'))
    put('file_source_id', c.get('file_source_id'))
    ge = c.get('global_encoding')
    put('global_encoding', ite(eq(fmod_(fdiv_(ge, 16), 2), I(1)), ge, add(ge, I(16))))
    put('version.major', I(1))
    put('version.minor', I(4))
    for (f, n, w), k in zip(TEXT, ('guid', 'system_identifier', 'generating_software')):
        put(k, fixed_text(c.get(f), w))
    put('creation.day', c.get('creation_day'))
    put('creation.year', c.get('creation_year'))
    put('header_size', I(375))
    put('point_offset', off)
    b = lambda x, n: ite(x, I(n), I(0))
    put('vlr_count', add(add(add(I(1), b(eb, 1)), b(copc, 2)), b(ext, 1)))
    f = wrap(c.get('point_format_id_'), 8, False)
    put('point_format_id', ite(le(I(128), f), f, add(f, I(128))))
    put('point_record_length', c.get('point_record_length_'))
    put('point_count', ite(le(count, I((1 << 32) - 1)), count, I(0)))
    put('points_by_return', lit([I(0)] * 5))
    for a in 'xyz':
        put('scale.' + a, c.get('scale_.' + a))
        put('offset.' + a, c.get('offset_.' + a))
        put('max' + a, c.get('max.' + a))
        put('min' + a, c.get('min.' + a))
    put('evlr_offset', eoff)
    put('evlr_count', ecount)
    put('point_count_14', count)
    put('points_by_return_14', c.get('points_by_return'))
    c.ret(c.read(h))

@contract(H + 'FromLazPerf(const lazperf::header14 &)', 'C11')
def _(c):
    h = c.lv(0)
    g = lambda k: c.get(k, h)
    f = g('point_format_id')
    ok = and_(eq(fmod_(fdiv_(g('global_encoding'), 16), 2), I(1)), eq(g('version.major'), I(1)), eq(g('version.minor'), I(4)),
              eq(g('header_size'), I(375)), fmt_ok(f))
    if c.throws(not_(ok)):
        return
    o = c.zero(HCLS)
    put = lambda k, v: c.set(k, v, o)
    for k in ('file_source_id', 'global_encoding'):
        put(k, g(k))
    for (t, n, w), k in zip(TEXT, ('guid', 'system_identifier', 'generating_software')):
        put(t, field_text(c, g(k), w))
    for k in ('day', 'year'):
        put('creation_' + k, g('creation.' + k))
    for k in ('point_offset', 'vlr_count', 'point_record_length', 'evlr_offset', 'evlr_count'):
        put(k + '_', g(k))
    put('point_format_id_', f)
    put('point_count_', g('point_count_14'))
    put('points_by_return', g('points_by_return_14'))
    for a in 'xyz':
        put('scale_.' + a, g('scale.' + a))
        put('offset_.' + a, g('offset.' + a))
        put('max.' + a, g('max' + a))
        put('min.' + a, g('min' + a))
    put('copc_flag_', TRUE)
    c.ret(c.read(o))

@lemma('a header read back from its on-disk form is the header', 'C11')
def _(L):
    h = L.object(HCLS, 'h')
    for f, n, w in TEXT:
        s = L.get(f, h)
        L.assume(le(s.n, I(w)))
        k = fresh('k', 'I', 0, None)
        L.assume(L.ex.forall(s.n, k, ne(seq_get(s, k), I(0))))
    L.assume(fmt_ok(L.get('point_format_id_', h)))
    a = [L.var(['int', n, False], x) for n, x in ((32, 'off'), (64, 'cnt'), (64, 'eoff'), (32, 'ecnt'))]
    eb, ext = L.var(['bool'], 'eb'), L.var(['bool'], 'ext')
    d = L.cellv(L.call(L.fid(H + 'ToLazPerf(u32, u64, u64, u32, bool, bool) const'), h, a + [eb, ext]))
    f = L.get('point_format_id', d)
    # the compression bit is removed by lazperf when it reads the header
    L.set('point_format_id', sub(f, I(128)), d)
    r = L.cellv(L.call(L.fid(H + 'FromLazPerf(const lazperf::header14 &)'), None, [d]))
    for k in HFIELDS:
        t = L.T.ftype(HCLS + '::' + k)
        if k in ('point_offset_', 'point_count_', 'evlr_offset_', 'evlr_count_'):
            L.prove(k, eq(L.get(k, r), a[('point_offset_', 'point_count_', 'evlr_offset_', 'evlr_count_').index(k)]))
        elif k == 'global_encoding':
            g = L.get(k, h)
            L.prove(k, eq(L.get(k, r), ite(eq(fmod_(fdiv_(g, 16), 2), I(1)), g, add(g, I(16)))))
        elif k == 'vlr_count_':
            b = lambda x, n: ite(x, I(n), I(0))
            L.prove(k, eq(L.get(k, r), add(add(add(I(1), b(eb, 1)), b(L.get('copc_flag_', h), 2)), b(ext, 1))))
        elif k != 'copc_flag_':
            L.prove_same(k, L.get(k, r), L.get(k, h), t)

# ------------------------------------------------------------------ VLR headers
VH = 'copc::las::VlrHeader'
VF = ('reserved', 'user_id', 'record_id', 'data_length', 'description')
def vcopy(c, src, dst=None, width=None):
    for k in VF:
        v = c.get(k, src)
        if k == 'data_length' and width:
            v = wrap(v, width, False)
        c.set(k, v, dst)
@contract('las::VlrHeader::VlrHeader()', 'C11 C15 C25')
def _(c):
    for k in ('reserved', 'record_id', 'data_length'):
        c.set(k, I(0))
    for k in ('user_id', 'description'):
        c.set(k, Seq())
    c.set('evlr_flag', FALSE)
@contract('las::VlrHeader::VlrHeader(const las::VlrHeader &)', 'C11 C15 C25')
def _(c):
    vcopy(c, c.lv(0))
    c.set('evlr_flag', c.get('evlr_flag', c.lv(0)))
for k, flag in (('vlr_header', FALSE), ('evlr_header', TRUE)):
    def conv(k, flag):
        @contract('las::VlrHeader::VlrHeader(const lazperf::%s &)' % k, 'C11 C15 C25')
        def _(c):
            vcopy(c, c.lv(0))
            c.set('evlr_flag', flag)
        @contract('las::VlrHeader::ToLazperf%sHeader() const' % ('Vlr' if k[0] == 'v' else 'Evlr'), 'C11 C15 C25')
        def _(c):
            h = c.zero('lazperf::' + k)
            vcopy(c, c.this, h, 16 if k[0] == 'v' else 64)
            c.ret(c.read(h))
    conv(k, flag)

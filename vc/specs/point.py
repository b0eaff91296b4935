"""las::Point: attributes, formats, copying, equality (C03, C04) and the LAS 1.4 record layout (C01)."""
from ..spec import *

P = 'las::Point::'
CLS = 'copc::las::Point'
BASE = {6: 30, 7: 36, 8: 38}

def base_size(f):
    return ite(eq(f, I(6)), I(30), ite(eq(f, I(7)), I(36), I(38)))
def fmt_ok(f):
    return and_(le(I(6), f), le(f, I(8)))
def has_rgb(f):
    return or_(eq(f, I(7)), eq(f, I(8)))
def has_nir(f):
    return eq(f, I(8))

def field(lv_or_ref, k):
    return ('fld', lv_or_ref, CLS + '::' + k)

def inv(c, lv):
    """class invariant of Point"""
    g = lambda k: c.read(field(lv, k))
    f = g('point_format_id_')
    n = g('extra_bytes_').n
    return and_(fmt_ok(f), iff(g('has_rgb_'), has_rgb(f)), iff(g('has_nir_'), has_nir(f)),
                eq(g('point_record_length_'), add(base_size(f), n)), le(n, I(65535)), eq(g('rgb_').n, I(3)))

def pre(c):
    return [('a well-formed point', inv(c, c.this))]
def nopre(c):
    return []

def scalar(name, fld, props='C03', t='u16'):
    arg = {'u16': 'const u16 &', 'u8': 'const u8 &', 'short': 'const short &', 'double': 'const double &'}[t]
    @contract(P + name + '() const', props)
    def get(c):
        c.ret(c.get(fld))
    @contract(P + name + '(' + arg + ')', props)
    def put(c):
        c.set(fld, c.a(0))

for n, f, t in (('X', 'x_scaled_', 'double'), ('Y', 'y_scaled_', 'double'), ('Z', 'z_scaled_', 'double'),
                ('Intensity', 'intensity_', 'u16'), ('Classification', 'classification_', 'u8'),
                ('ScanAngle', 'scan_angle_', 'short'), ('UserData', 'user_data_', 'u8'),
                ('PointSourceId', 'point_source_id_', 'u16'), ('GPSTime', 'gps_time_', 'double'),
                ('ReturnsBitField', 'returns_', 'u8'), ('FlagsBitField', 'flags_', 'u8')):
    scalar(n, f, 'C03', t)

def bits(name, fld, lo, width, boolean):
    """attribute stored in bits lo .. lo+width-1 of a byte"""
    m = 1 << width
    @contract(P + name + '() const', 'C03')
    def get(c):
        v = fmod_(fdiv_(c.get(fld), 1 << lo), m)
        c.ret(eq(v, I(1)) if boolean else v)
    @contract(P + name + ('(const bool &)' if boolean else '(const u8 &)'), 'C03')
    def put(c):
        v = c.a(0)
        if boolean:
            v = ite(v, I(1), I(0))
        elif c.throws(lt(I(m - 1), v)):
            return
        old = c.get(fld)
        low = fmod_(old, 1 << lo) if lo else I(0)
        high = scale(fdiv_(old, 1 << (lo + width)), 1 << (lo + width)) if lo + width < 8 else I(0)
        c.set(fld, add(high, add(scale(v, 1 << lo), low)))

ATTRS = [('ReturnNumber', 'returns_', 0, 4, False), ('NumberOfReturns', 'returns_', 4, 4, False),
         ('Synthetic', 'flags_', 0, 1, True), ('KeyPoint', 'flags_', 1, 1, True), ('Withheld', 'flags_', 2, 1, True),
         ('Overlap', 'flags_', 3, 1, True), ('ScannerChannel', 'flags_', 4, 2, False),
         ('ScanDirectionFlag', 'flags_', 6, 1, True), ('EdgeOfFlightLineFlag', 'flags_', 7, 1, True)]
for a in ATTRS:
    bits(*a)

def attr_lemma(i):
    name, fld, lo, width, boolean = ATTRS[i]
    @lemma('setting %s changes no other attribute' % name, 'C03')
    def _(L):
        p = L.object(CLS, 'p')
        v = L.var(['bool'] if boolean else ['int', 8, False], 'v')
        before = {}
        for n, f, a, b, bl in ATTRS:
            before[n] = L.call(L.fid(P + n + '() const'), p, [])
        if not boolean:
            L.assume(lt(v, I(1 << width)))
        L.call(L.fid(P + name + ('(const bool &)' if boolean else '(const u8 &)')), p, [L.cellv(v)])
        for n, f, a, b, bl in ATTRS:
            after = L.call(L.fid(P + n + '() const'), p, [])
            want = v if n == name else before[n]
            L.prove('%s after setting %s' % (n, name), eq(after, want) if after.sort == 'I' else iff(after, want))
for i in range(len(ATTRS)):
    attr_lemma(i)

# ------------------------------------------------------------------ optional dimensions
def rgb(name, i):
    @contract(P + name + '() const', 'C03 C04')
    def get(c):
        if c.throws(not_(c.get('has_rgb_'))):
            return
        c.ret(seq_get(c.get('rgb_'), I(i)))
    @contract(P + name + '(const u16 &)', 'C03 C04')
    def put(c):
        if c.throws(not_(c.get('has_rgb_'))):
            return
        c.set('rgb_', seq_set(c.get('rgb_'), I(i), c.a(0)))
for i, n in enumerate(('Red', 'Green', 'Blue')):
    rgb(n, i)

@contract(P + 'Rgb(const u16 &, const u16 &, const u16 &)', 'C03 C04')
def _(c):
    if c.throws(not_(c.get('has_rgb_'))):
        return
    c.set('rgb_', lit([c.a(0), c.a(1), c.a(2)]))

@contract(P + 'Rgb(const std::vector<u16> &)', 'C03 C04')
def _(c):
    v = c.a(0)
    if c.throws(or_(not_(c.get('has_rgb_')), ne(v.n, I(3)))):
        return
    c.set('rgb_', lit([seq_get(v, I(i)) for i in range(3)]))

@contract(P + 'Nir() const', 'C03 C04')
def _(c):
    if c.throws(not_(c.get('has_nir_'))):
        return
    c.ret(c.get('nir_'))

@contract(P + 'Nir(const u16 &)', 'C03 C04')
def _(c):
    if c.throws(not_(c.get('has_nir_'))):
        return
    c.set('nir_', c.a(0))

@contract(P + 'HasRgb() const', 'C04')
def _(c):
    c.ret(c.get('has_rgb_'))
@contract(P + 'HasNir() const', 'C04')
def _(c):
    c.ret(c.get('has_nir_'))
@contract(P + 'PointFormatId() const', 'C04')
def _(c):
    c.ret(c.get('point_format_id_'))
@contract(P + 'PointRecordLength() const', 'C04')
def _(c):
    c.ret(c.get('point_record_length_'))
@contract(P + 'EbByteSize() const', 'C04', pre=pre)
def _(c):
    c.ret(c.get('extra_bytes_').n)
@contract(P + 'ExtraBytes() const', 'C03')
def _(c):
    c.ret(c.get('extra_bytes_'))
@contract(P + 'ExtraBytes(const std::vector<u8> &)', 'C03 C04', pre=pre)
def _(c):
    if c.throws(ne(c.a(0).n, c.get('extra_bytes_').n)):
        return
    c.set('extra_bytes_', c.a(0))

# ------------------------------------------------------------------ construction, conversion, copying
def blank(c, fmt, eb):
    """a new point of a format: every attribute zero"""
    z = I(0)
    for k in ('intensity_', 'returns_', 'flags_', 'classification_', 'scan_angle_', 'user_data_', 'point_source_id_', 'nir_'):
        c.set(k, z)
    for k in ('x_scaled_', 'y_scaled_', 'z_scaled_', 'gps_time_'):
        c.set(k, D(0.0))
    c.set('rgb_', lit([z, z, z]))
    c.set('extra_bytes_', tab(eb, lambda k: I(0)))
    c.set('point_format_id_', fmt)
    c.set('point_record_length_', add(base_size(fmt), eb))
    c.set('has_rgb_', has_rgb(fmt))
    c.set('has_nir_', has_nir(fmt))

@contract(P + 'Point(const i8 &, const u16 &)', 'C04')
def _(c):
    if c.throws(not_(fmt_ok(c.a(0)))):
        return
    blank(c, c.a(0), c.a(1))

@contract(P + 'ToPointFormat(const i8 &)', 'C04', pre=pre)
def _(c):
    f = c.a(0)
    if c.throws(not_(fmt_ok(f))):
        return
    c.set('point_record_length_', add(base_size(f), c.get('extra_bytes_').n))
    c.set('point_format_id_', f)
    c.set('has_rgb_', has_rgb(f))
    c.set('has_nir_', has_nir(f))

@contract(P + 'Point(const las::Point &)', 'C04', pre=lambda c: [('the source is well-formed', inv(c, c.lv(0)))])
def _(c):
    o = c.lv(0)
    for k in ('x_scaled_', 'y_scaled_', 'z_scaled_', 'gps_time_', 'intensity_', 'returns_', 'flags_', 'classification_',
              'scan_angle_', 'user_data_', 'point_source_id_', 'extra_bytes_', 'point_format_id_', 'point_record_length_',
              'has_rgb_', 'has_nir_'):
        c.set(k, c.get(k, o))
    # dimensions the format lacks are not observable
    hr, hn = c.get('has_rgb_', o), c.get('has_nir_', o)
    c.set('rgb_', vite(hr, c.get('rgb_', o), lit([c.havoc(['int', 16, False]) for i in range(3)])))
    c.set('nir_', ite(hn, c.get('nir_', o), c.havoc(['int', 16, False])))

def close(a, b):
    """|a - b| < 1e-6 in double arithmetic"""
    return dcmp('lt', dop('fabs', dop('fsub', a, b)), D(0.000001))

def point_eq(c, p, q):
    g = lambda k: (c.get(k, p), c.get(k, q))
    cs = [close(*g(k)) for k in ('x_scaled_', 'y_scaled_', 'z_scaled_')]
    cs += [eq(*g(k)) for k in ('intensity_', 'returns_', 'flags_', 'classification_', 'scan_angle_', 'user_data_',
                               'point_source_id_', 'point_format_id_', 'point_record_length_')]
    cs.append(dcmp('eq', *g('gps_time_')))
    cs.append(c.T.std.seq_eq(c.ex, *g('extra_bytes_')))
    a, b = g('rgb_')
    for i in range(3):
        cs.append(implies(c.get('has_rgb_', p), eq(seq_get(a, I(i)), seq_get(b, I(i)))))
    cs.append(implies(c.get('has_nir_', p), eq(*g('nir_'))))
    return and_(*cs)

def pre2(c):
    return [('both points well-formed', and_(inv(c, c.this), inv(c, c.lv(0))))]

@contract(P + 'operator==(const las::Point &) const', 'C04', pre=pre2)
def _(c):
    c.ret(point_eq(c, c.this, c.lv(0)))
@contract(P + 'operator!=(const las::Point &) const', 'C04', pre=pre2)
def _(c):
    c.ret(not_(point_eq(c, c.this, c.lv(0))))

def finite(v):
    return dcmp('lt', dop('fabs', v), D(float('inf')))

@lemma('a copied point equals its source', 'C04')
def _(L):
    p = L.object(CLS, 'p')
    L.assume(inv(L, p))
    for k in ('x_scaled_', 'y_scaled_', 'z_scaled_', 'gps_time_'):
        L.assume(finite(L.get(k, p)))
    q = L.raw(CLS)
    L.call(L.fid(P + 'Point(const las::Point &)'), q, [p])
    L.prove('the copy is well-formed', inv(L, q))
    L.prove('the copy equals the source', L.call(L.fid(P + 'operator==(const las::Point &) const'), q, [p]))

@lemma('a new point is well-formed', 'C04')
def _(L):
    q = L.raw(CLS)
    f, n = L.var(['int', 8, True], 'f'), L.var(['int', 16, False], 'n')
    L.call(L.fid(P + 'Point(const i8 &, const u16 &)'), q, [L.cellv(f), L.cellv(n)])
    L.prove('invariant', inv(L, q))

@lemma('a converted point is well-formed and keeps its extra bytes', 'C04')
def _(L):
    q = L.object(CLS, 'p')
    L.assume(inv(L, q))
    f = L.var(['int', 8, True], 'f')
    n = L.get('extra_bytes_', q).n
    L.call(L.fid(P + 'ToPointFormat(const i8 &)'), q, [L.cellv(f)])
    L.prove('invariant', inv(L, q))
    L.prove('extra bytes', eq(L.get('extra_bytes_', q).n, n))
    L.prove('format', eq(L.get('point_format_id_', q), f))

"""LAS 1.4 point records (C01) and buffers of records (C07)."""
from ..spec import *
from .point import *
from .utils import apply_scale, quantised
from .streams import *

SZ = {'u8': (1, False), 'u16': (2, False), 'short': (2, True), 'int': (4, True), 'double': (8, None)}

def pk(t):
    n, s = SZ[t]
    @contract('las::pack(<%s,>const %s &, ostream &)' % (t, t), 'C01', pre=lambda c: appending(c, c.lv(1)))
    def _(c):
        put(c, c.lv(1), lit(d_bytes(c.a(0)) if s is None else le_bytes(c.a(0), n)))
    @contract('las::unpack(<%s,>istream &)' % t, 'C01', pre=lambda c: readable(c, c.lv(0), I(n)))
    def _(c):
        at = take(c, c.lv(0), n)
        c.ret(get_dbl(at, 0) if s is None else get_int(at, 0, n, s))
for _t in SZ:
    pk(_t)

def tail_bytes(c, p):
    """the record after the coordinates: 18 bytes, then RGB, NIR and extra bytes where the format has them"""
    g = lambda k: c.get(k, p)
    b = le_bytes(g('intensity_'), 2)
    for k in ('returns_', 'flags_', 'classification_', 'user_data_'):
        b.append(g(k))
    b += le_bytes(g('scan_angle_'), 2) + le_bytes(g('point_source_id_'), 2) + d_bytes(g('gps_time_'))
    rgb = [x for i in range(3) for x in le_bytes(seq_get(g('rgb_'), I(i)), 2)]
    return cat(lit(b), seq_ite(g('has_rgb_'), lit(rgb), Seq()), seq_ite(g('has_nir_'), lit(le_bytes(g('nir_'), 2)), Seq()),
               g('extra_bytes_'))

AX = ('x_scaled_', 'y_scaled_', 'z_scaled_')

def pack_point(c, p, out, scale, offset):
    """appends the record of p; throws at the first coordinate that cannot be stored"""
    for k, a in zip(AX, 'xyz'):
        q = quantised(c, c.get(k, p), scale[a], offset[a])
        if q is None:
            return False
        put(c, out, lit(le_bytes(q, 4)))
    put(c, out, tail_bytes(c, p))
    return True

def v3(c, lv):
    return {a: c.get(a, lv) for a in 'xyz'}

@contract(P + 'Pack(ostream &, const Vector3 &, const Vector3 &) const', 'C01', pre=lambda c: pre(c) + appending(c, c.lv(0)))
def _(c):
    pack_point(c, c.this, c.lv(0), v3(c, c.lv(1)), v3(c, c.lv(2)))

def point_at(c, at, fmt, eb, scale, offset):
    """the coordinates of the point whose record starts at at(0)"""
    return {a: apply_scale(i2d(get_int(at, 4 * i, 4, True)), scale[a], offset[a]) for i, a in enumerate('xyz')}
def decoded(c, at, fmt, eb, scale, offset):
    """fields of the point whose record starts at at(0)"""
    f = {}
    for i, (k, a) in enumerate(zip(AX, 'xyz')):
        f[k] = apply_scale(i2d(get_int(at, 4 * i, 4, True)), scale[a], offset[a])
    f['intensity_'] = get_int(at, 12, 2, False)
    for i, k in enumerate(('returns_', 'flags_', 'classification_', 'user_data_')):
        f[k] = at(14 + i)
    f['scan_angle_'] = get_int(at, 18, 2, True)
    f['point_source_id_'] = get_int(at, 20, 2, False)
    f['gps_time_'] = get_dbl(at, 22)
    f['rgb_'] = lit([ite(has_rgb(fmt), get_int(at, 30 + 2 * i, 2, False), I(0)) for i in range(3)])
    f['nir_'] = ite(has_nir(fmt), get_int(at, 36, 2, False), I(0))
    f['extra_bytes_'] = tab(eb, lambda k: at(add(base_size(fmt), k)))
    f['point_format_id_'] = fmt
    f['point_record_length_'] = add(base_size(fmt), eb)
    f['has_rgb_'], f['has_nir_'] = has_rgb(fmt), has_nir(fmt)
    return f

@contract(P + 'Unpack(istream &, const i8 &, const Vector3 &, const Vector3 &, const u16 &)', 'C01',
          pre=lambda c: readable(c, c.lv(0), add(base_size(c.a(1)), c.a(4))))
def _(c):
    fmt, eb = c.a(1), c.a(4)
    if c.throws(not_(fmt_ok(fmt))):
        return
    at = take(c, c.lv(0), add(base_size(fmt), eb))
    c.ret(c.new(CLS, decoded(c, at, fmt, eb, v3(c, c.lv(2)), v3(c, c.lv(3)))))

@lemma('a record read back has the written attributes and is consumed exactly', 'C01')
def _(L):
    p = L.object(CLS, 'p')
    L.assume(inv(L, p))
    V = 'copc::Vector3'
    sc, of = L.object(V, 'scale'), L.object(V, 'offset')
    s = L.cellv(L.var(['rec', 'std::basic_iostream', 'std::basic_iostream', []], 's'))
    st = L.read(s)
    L.write(s, st.set('p', st.f['data'].n).set('g', st.f['data'].n))
    st = L.read(s)
    L.call(L.fid(P + 'Pack(ostream &, const Vector3 &, const Vector3 &) const'), p, [s, sc, of])
    L.prove('record length bytes', eq(L.read(s).f['data'].n, add(st.f['data'].n, L.get('point_record_length_', p))))
    fmt, eb = L.get('point_format_id_', p), L.get('extra_bytes_', p).n
    r = L.call(L.fid(P + 'Unpack(istream &, const i8 &, const Vector3 &, const Vector3 &, const u16 &)'), None,
               [s, L.cellv(fmt), sc, of, L.cellv(eb)])
    o = L.obj(r, CLS)
    L.prove('consumed', eq(L.read(s).f['g'], L.read(s).f['data'].n))
    for k in ('intensity_', 'returns_', 'flags_', 'classification_', 'scan_angle_', 'user_data_', 'point_source_id_',
              'point_format_id_', 'point_record_length_', 'extra_bytes_', 'gps_time_', 'has_rgb_', 'has_nir_'):
        L.prove_same(k, L.get(k, o), L.get(k, p), L.T.ftype(CLS + '::' + k))
    L.prove('nir', implies(L.get('has_nir_', p), eq(L.get('nir_', o), L.get('nir_', p))))
    for i in range(3):
        L.prove('rgb %d' % i, implies(L.get('has_rgb_', p), eq(seq_get(L.get('rgb_', o), I(i)), seq_get(L.get('rgb_', p), I(i)))))
    for k, a in zip(AX, 'xyz'):
        q = quantised(L, L.get(k, p), L.get(a, sc), L.get(a, of))
        L.prove_same(k + ' is the stored integer scaled', L.get(k, o), apply_scale(i2d(q), L.get(a, sc), L.get(a, of)), ['flt', 64])

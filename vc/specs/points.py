"""las::Points: homogeneous collections (C05), bulk access and box filters (C06), buffers of records (C07)."""
from ..spec import *
from . import point as pt
from .point import base_size, fmt_ok
from .streams import *
from .geometry import bx, contains_pt

PS = 'las::Points::'
PCLS = 'copc::las::Points'
pk = fresh('pk', 'I', 0, None)

def pobj(c, ref):
    return c.obj(ref, pt.CLS)
def fits_point(c, ref, fmt, rl):
    """the point has this format and record length"""
    o = pobj(c, ref)
    return and_(eq(c.get('point_format_id_', o), fmt), eq(c.get('point_record_length_', o), rl))
def all_points(c, seq, f):
    """f(reference) for every element"""
    if seq.n is I(0):
        return TRUE
    if any(isinstance(p, (Flat, Alt)) for p in seq.parts):
        return and_(*[all_part(c, p, f) for p in seq.parts])
    return c.ex.forall(seq.n, pk, f(seq_get(seq, pk)))
def all_part(c, p, f):
    if isinstance(p, Lit):
        return and_(*[f(v) for v in p.vals])
    if isinstance(p, Alt):
        return ite(p.c, all_points(c, p.a, f), all_points(c, p.b, f))
    k = fresh('pk', 'I', 0, None)
    b = vsubst(p.body, {p.k: k})
    return c.ex.forall(p.n, k, f(b) if isinstance(p, Tab) else all_points(c, b, f))
def frl(c, lv):
    return c.get('point_format_id_', lv), c.get('point_record_length_', lv)
def size_ok(fmt, rl):
    return and_(fmt_ok(fmt), le(base_size(fmt), rl), le(rl, I(65535)))
def sizes(c, lv):
    """what the constructors establish for format and record length"""
    fmt, rl = frl(c, lv)
    return size_ok(fmt, rl)
def well_formed(c, seq):
    return all_points(c, seq, lambda r: and_(pt.inv(c, pobj(c, r)), size_ok(*frl(c, pobj(c, r)))))
def homogeneous(c, lv):
    fmt, rl = frl(c, lv)
    return all_points(c, c.get('points_', lv), lambda r: and_(pt.inv(c, pobj(c, r)), fits_point(c, r, fmt, rl)))
def pinv(c, lv):
    return [('a collection of a supported format', sizes(c, lv)), ('every point has the format of the collection', homogeneous(c, lv))]
def pre(c):
    return pinv(c, c.this)
def fam(c):
    c.family(c.get('points_'))
def eb_of(c, lv):
    fmt, rl = frl(c, lv)
    return sub(rl, base_size(fmt))

# ------------------------------------------------------------------ C05
def short_record(c):
    """record lengths are 16-bit numbers in LAS"""
    return [('the record length is a 16-bit number', implies(fmt_ok(c.a(0)), le(add(base_size(c.a(0)), c.a(1)), I(65535))))]
@contract(PS + 'Points(const i8 &, const u16 &)', 'C05', pre=short_record)
def _(c):
    if c.throws(not_(fmt_ok(c.a(0)))):
        return
    c.set('points_', Seq())
    c.set('point_format_id_', c.a(0))
    c.set('point_record_length_', add(base_size(c.a(0)), c.a(1)))

@contract(PS + 'Points(const std::vector<std::shared_ptr<las::Point>> &)', 'C05', pre=lambda c: [('well-formed points', well_formed(c, c.a(0)))])
def _(c):
    v = c.a(0)
    if c.throws(eq(v.n, I(0))):
        return
    o = pobj(c, seq_get(v, I(0)))
    fmt, rl = frl(c, o)
    if c.throws(not_(all_points(c, v, lambda r: fits_point(c, r, fmt, rl)))):
        return
    c.set('points_', v)
    c.set('point_format_id_', fmt)
    c.set('point_record_length_', rl)

@contract(PS + 'AddPoint(const std::shared_ptr<las::Point> &)', 'C05')
def _(c):
    if c.throws(not_(fits_point(c, c.a(0), *frl(c, c.this)))):
        return
    c.set('points_', cat(c.get('points_'), lit([c.a(0)])))

@contract(PS + 'AddPoints(std::vector<std::shared_ptr<las::Point>>)', 'C05')
def _(c):
    fmt, rl = frl(c, c.this)
    if c.throws(not_(all_points(c, c.a(0), lambda r: fits_point(c, r, fmt, rl)))):
        return
    c.set('points_', cat(c.get('points_'), c.a(0)))

@contract(PS + 'AddPoints(las::Points)', 'C05')
def _(c):
    fmt, rl = frl(c, c.this)
    f2, r2 = frl(c, c.lv(0))
    if c.throws(or_(ne(fmt, f2), ne(rl, r2))):
        return
    c.set('points_', cat(c.get('points_'), c.get('points_', c.lv(0))))

@contract(PS + 'CreatePoint()', 'C05', pre=pre)
def _(c):
    fmt, rl = frl(c, c.this)
    eb = sub(rl, base_size(fmt))
    c.ret(new_blank(c, fmt, eb))

def new_blank(c, fmt, eb):
    z = I(0)
    f = {k: z for k in ('intensity_', 'returns_', 'flags_', 'classification_', 'scan_angle_', 'user_data_', 'point_source_id_', 'nir_')}
    f.update({k: D(0.0) for k in ('x_scaled_', 'y_scaled_', 'z_scaled_', 'gps_time_')})
    f.update(rgb_=lit([z, z, z]), extra_bytes_=tab(eb, lambda k: z), point_format_id_=fmt,
             point_record_length_=add(base_size(fmt), eb), has_rgb_=pt.has_rgb(fmt), has_nir_=pt.has_nir(fmt))
    return c.new(pt.CLS, f)

@contract(PS + 'ToPointFormat(const i8 &)', 'C05', pre=lambda c: pre(c) + [('the record length stays a 16-bit number', le(add(base_size(c.a(0)), eb_of(c, c.this)), I(65535)))], setup=fam)
def _(c):
    f = c.a(0)
    if c.throws(not_(fmt_ok(f))):
        return
    v = c.get('points_')
    conv = c.fid(pt.P + 'ToPointFormat(const i8 &)')
    def one(k):
        o = pobj(c, seq_get(v, k))
        c.set('point_record_length_', add(base_size(f), c.get('extra_bytes_', o).n), o)
        c.set('point_format_id_', f, o)
        c.set('has_rgb_', pt.has_rgb(f), o)
        c.set('has_nir_', pt.has_nir(f), o)
    eb = eb_of(c, c.this)
    c.each(v.n, one)
    c.set('point_format_id_', f)
    c.set('point_record_length_', add(base_size(f), eb))

for name, f in (('PointFormatId() const', 'point_format_id_'), ('PointRecordLength() const', 'point_record_length_'), ('Get()', 'points_')):
    def get(c, f=f):
        c.ret(c.get(f))
    contract(PS + name, 'C05')(get)
@contract(PS + 'EbByteSize() const', 'C05', pre=pre)
def _(c):
    c.ret(eb_of(c, c.this))
@contract(PS + 'Size() const', 'C05')
def _(c):
    c.ret(c.get('points_').n)

@contract(PS + 'begin() const', 'C05')
def _(c):
    c.ret(It('vec', c.flv('points_'), I(0)))
@contract(PS + 'end() const', 'C05')
def _(c):
    c.ret(It('vec', c.flv('points_'), c.get('points_').n))

# ------------------------------------------------------------------ C06
ATTR = (('X', 'x_scaled_', 'double'), ('Y', 'y_scaled_', 'double'), ('Z', 'z_scaled_', 'double'),
        ('Classification', 'classification_', 'u8'), ('PointSourceId', 'point_source_id_', 'u16'),
        ('Red', 0, 'u16'), ('Green', 1, 'u16'), ('Blue', 2, 'u16'))

def bulk(name, f, ts):
    colour = isinstance(f, int)
    @contract(PS + name + '() const', 'C06', pre=pre)
    def get(c):
        v = c.get('points_')
        if colour and c.throws(and_(not_(pt.has_rgb(c.get('point_format_id_'))), lt(I(0), v.n))):
            return
        def one(k):
            o = pobj(c, seq_get(v, k))
            return seq_get(c.get('rgb_', o), I(f)) if colour else c.get(f, o)
        c.ret(c.each(v.n, one))
    for t in ts:
        @contract(PS + name + '(const std::vector<%s> &)' % t, 'C06', pre=pre, setup=fam)
        def put(c):
            v = c.get('points_')
            if c.throws(ne(c.a(0).n, v.n)):
                return
            if colour and c.throws(and_(not_(pt.has_rgb(c.get('point_format_id_'))), lt(I(0), v.n))):
                return
            def one(k):
                o = pobj(c, seq_get(v, k))
                x = seq_get(c.a(0), k)
                if colour:
                    c.set('rgb_', seq_set(c.get('rgb_', o), I(f), x), o)
                else:
                    c.set(f, x, o)
            c.each(v.n, one)
for n, f, t in ATTR:
    bulk(n, f, ['u8', 'u16'] if n == 'PointSourceId' else [t])

def inside(c, ref, box):
    o = pobj(c, ref)
    return contains_pt(box, {a: c.get(a + '_scaled_', o) for a in 'xyz'})

@contract(PS + 'Within(const Box &) const', 'C06', pre=pre)
def _(c):
    b = bx(c, c.lv(0))
    c.ret(all_points(c, c.get('points_'), lambda r: inside(c, r, b)))

@contract(PS + 'GetWithin(const Box &)', 'C06')
def _(c):
    b = bx(c, c.lv(0))
    v = c.get('points_')
    c.ret(select(c, v, lambda r: inside(c, r, b)))

def select(c, seq, f):
    """the elements with f, in order"""
    k = fresh('sel', 'I', 0, None)
    e = seq_get(seq, k)
    return Seq([Flat(seq.n, k, seq_ite(f(e), lit([e]), Seq()))])

# ------------------------------------------------------------------ C07
from .records import tail_bytes, decoded, v3, AX
from .utils import quantised
from ..stdlib import smap, schar, uchar

def record(c, ref, scale, offset):
    """(bytes of the record, whether every coordinate can be stored)"""
    o = pobj(c, ref)
    ex = c.ex
    ok, b = TRUE, []
    for k, a in zip(AX, 'xyz'):
        q, good = quantised_total(c, c.get(k, o), scale[a], offset[a])
        ok = and_(ok, good)
        b += le_bytes(q, 4)
    return cat(lit(b), tail_bytes(c, o)), ok

def quantised_total(c, v, s, o):
    """the stored integer and whether there is one, without throwing"""
    st = c.st
    x = st.copy()
    old, c.ex.throws = c.ex.throws, []
    pc = x.pc = TRUE
    c.st = x
    try:
        q = quantised(c, v, s, o)
    finally:
        c.st = st
        c.ex.throws = old
    return q, x.pc

def pack_all(c, scale, offset):
    v = c.get('points_')
    if c.throws(not_(all_points(c, v, lambda r: record(c, r, scale, offset)[1]))):
        return None
    k = fresh('rec', 'I', 0, None)
    return Seq([Flat(v.n, k, record(c, seq_get(v, k), scale, offset)[0])])

@contract(PS + 'Pack(ostream &, const Vector3 &, const Vector3 &) const', 'C07', pre=lambda c: pre(c) + appending(c, c.lv(0)), throw_havoc={'out_stream'})
def _(c):
    b = pack_all(c, v3(c, c.lv(1)), v3(c, c.lv(2)))
    if b is not None:
        put(c, c.lv(0), b)

@contract(PS + 'Pack(const Vector3 &, const Vector3 &) const', 'C07', pre=pre)
def _(c):
    b = pack_all(c, v3(c, c.lv(0)), v3(c, c.lv(1)))
    if b is not None:
        c.ret(smap(b, schar))

@contract(PS + 'Unpack(const std::vector<char> &, const i8 &, const u16 &, const Vector3 &, const Vector3 &)', 'C07',
          pre=lambda c: [('the record length is a 16-bit number', implies(fmt_ok(c.a(1)), le(add(base_size(c.a(1)), c.a(2)), I(65535))))])
def _(c):
    fmt, eb = c.a(1), c.a(2)
    if c.throws(not_(fmt_ok(fmt))):
        return
    unpack_all(c, c.a(0), fmt, eb, v3(c, c.lv(3)), v3(c, c.lv(4)))

def multiple(t, rl):
    """n with t == rl * n, when t is written like that (record lengths are not zero)"""
    if rl.op not in ('uf', 'var'):
        return None
    out = {}
    for m, x in poly(t).items():
        if rl not in m:
            return None
        l = list(m)
        l.remove(rl)
        out[tuple(l)] = x
    return from_poly(out)
def unpack_all(c, data, fmt, eb, scale, offset):
    rl = add(base_size(fmt), eb)
    n = multiple(data.n, rl)
    if n is None:
        if c.throws(ne(tmod(data.n, rl), I(0))):
            return
        n = tdiv(data.n, rl)
    def one(k):
        at = lambda i: uchar(seq_get(data, add(mul(k, rl), i if isinstance(i, Term) else I(i))))
        return c.new(pt.CLS, decoded(c, at, fmt, eb, scale, offset))
    c.ret(c.rec(PCLS, points_=c.each(n, one), point_format_id_=fmt, point_record_length_=rl))

# ------------------------------------------------------------------ overloads taking a header
def hfmt(c, h):
    return c.get('point_format_id_', h), c.get('point_record_length_', h)
def hpre(i):
    def p(c):
        fmt, rl = hfmt(c, c.lv(i))
        return [('the header describes records of its format', implies(fmt_ok(fmt), le(base_size(fmt), rl)))]
    return p
def hv3(c, h, f):
    return {a: c.get(f + '.' + a, h) for a in 'xyz'}

@contract(PS + 'Points(const las::LasHeader &)', 'C05', pre=hpre(0))
def _(c):
    fmt, rl = hfmt(c, c.lv(0))
    if c.throws(not_(fmt_ok(fmt))):
        return
    c.set('points_', Seq())
    c.set('point_format_id_', fmt)
    c.set('point_record_length_', rl)

@contract(PS + 'Pack(ostream &, const las::LasHeader &) const', 'C07', pre=lambda c: pre(c) + appending(c, c.lv(0)), throw_havoc={'out_stream'})
def _(c):
    b = pack_all(c, hv3(c, c.lv(1), 'scale_'), hv3(c, c.lv(1), 'offset_'))
    if b is not None:
        put(c, c.lv(0), b)
@contract(PS + 'Pack(const las::LasHeader &) const', 'C07', pre=pre)
def _(c):
    b = pack_all(c, hv3(c, c.lv(0), 'scale_'), hv3(c, c.lv(0), 'offset_'))
    if b is not None:
        c.ret(smap(b, schar))
@contract(PS + 'Unpack(const std::vector<char> &, const las::LasHeader &)', 'C07', pre=hpre(1))
def _(c):
    h = c.lv(1)
    fmt, rl = hfmt(c, h)
    if c.throws(not_(fmt_ok(fmt))):
        return
    unpack_all(c, c.a(0), fmt, sub(rl, base_size(fmt)), hv3(c, h, 'scale_'), hv3(c, h, 'offset_'))

def ipre(c):
    return [('an index', lt(c.a(0), c.get('points_').n))]
@contract(PS + 'Get(const u64 &)', 'C05 C06', pre=ipre)
def _(c):
    c.ret(seq_get(c.get('points_'), c.a(0)))
for cv in ('', ' const'):
    @contract(PS + 'operator[](u64)' + cv, 'C05 C06', pre=ipre)
    def _(c):
        c.ret(('idx', c.flv('points_'), c.a(0)))
@contract(PS + 'Reserve(const u64 &)', 'C05')
def _(c):
    pass
@contract('las::Point::Point(const las::LasHeader &)', 'C04', pre=hpre(0))
def _(c):
    fmt, rl = hfmt(c, c.lv(0))
    if c.throws(not_(fmt_ok(fmt))):
        return
    pt.blank(c, fmt, sub(rl, base_size(fmt)))

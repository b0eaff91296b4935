"""LAS size tables (C13), coordinate quantisation and vectors (C02)."""
from ..spec import *
from .point import base_size, fmt_ok, has_rgb, has_nir

U = 'las::'

@contract(U + 'PointBaseByteSize(const i8 &)', 'C13')
def _(c):
    f = c.a(0)
    if c.throws(not_(fmt_ok(f))):
        return
    c.ret(base_size(f))

@contract(U + 'PointBaseNumberDimensions(const i8 &)', 'C13')
def _(c):
    f = c.a(0)
    if c.throws(not_(fmt_ok(f))):
        return
    c.ret(base_dims(f))

def base_dims(f):
    return ite(eq(f, I(6)), I(14), ite(eq(f, I(7)), I(17), I(18)))

@contract(U + 'FormatHasRgb(const u8 &)', 'C13')
def _(c):
    if c.throws(not_(fmt_ok(c.a(0)))):
        return
    c.ret(has_rgb(c.a(0)))

@contract(U + 'FormatHasNir(const u8 &)', 'C13')
def _(c):
    if c.throws(not_(fmt_ok(c.a(0)))):
        return
    c.ret(has_nir(c.a(0)))

@contract(U + 'EbByteSize(const i8 &, const u32 &)', 'C13')
def _(c):
    f = c.a(0)
    if c.throws(not_(fmt_ok(f))):
        return
    c.ret(wrap(sub(c.a(1), base_size(f)), 16, False))

@contract(U + 'PointByteSize(const i8 &, const u16 &)', 'C13')
def _(c):
    f = c.a(0)
    if c.throws(not_(fmt_ok(f))):
        return
    c.ret(wrap(add(c.a(1), base_size(f)), 16, False))

@lemma('record length and extra-byte size are inverse', 'C13')
def _(L):
    f, n = L.var(['int', 8, True], 'f'), L.var(['int', 16, False], 'n')
    L.assume(fmt_ok(f))
    r = L.call(L.fid(U + 'PointByteSize(const i8 &, const u16 &)'), None, [L.cellv(f), L.cellv(n)])
    m = L.call(L.fid(U + 'EbByteSize(const i8 &, const u32 &)'), None, [L.cellv(f), L.cellv(r)])
    L.prove('extra bytes of (format, length of (format, n)) is n', implies(le(add(n, base_size(f)), I(65535)), eq(m, n)))
    r2 = L.var(['int', 16, False], 'r')
    m2 = L.call(L.fid(U + 'EbByteSize(const i8 &, const u32 &)'), None, [L.cellv(f), L.cellv(r2)])
    r3 = L.call(L.fid(U + 'PointByteSize(const i8 &, const u16 &)'), None, [L.cellv(f), L.cellv(m2)])
    L.prove('length of (format, extra bytes of (format, r)) is r', implies(le(base_size(f), r2), eq(r3, r2)))

# ------------------------------------------------------------------ C02
def mul_(a, b): return dop('fmul', a, b)
def add_(a, b): return dop('fadd', a, b)
def sub_(a, b): return dop('fsub', a, b)
def div_(a, b): return dop('fdiv', a, b)

def apply_scale(v, s, o):
    return add_(mul_(v, s), o)

def quantised(c, v, s, o):
    """the stored integer for coordinate v, or a throw; None when it always throws"""
    q = dop('fround', div_(sub_(v, o), s))
    ok = and_(dcmp('le', D(-2147483648.0), q), dcmp('le', q, D(2147483647.0)))
    if c.throws(not_(ok)):
        return None
    return d2i(q)

@contract(U + 'ApplyScale(<int,>int, double, double)', 'C02')
def _(c):
    c.ret(apply_scale(i2d(c.a(0)), c.a(1), c.a(2)))

@contract(U + 'RemoveScale(<int,>double, double, double)', 'C02')
def _(c):
    q = quantised(c, c.a(0), c.a(1), c.a(2))
    if q is not None:
        c.ret(q)

for _i, _ax in enumerate('xyz'):
    def axis(ax):
        A = ax.upper()
        @contract('las::LasHeader::ApplyScale%s(double) const' % A, 'C02')
        def _(c):
            c.ret(apply_scale(c.a(0), c.get('scale_.' + ax), c.get('offset_.' + ax)))
        @contract('las::LasHeader::RemoveScale%s(double) const' % A, 'C02')
        def _(c):
            q = quantised(c, c.a(0), c.get('scale_.' + ax), c.get('offset_.' + ax))
            if q is not None:
                c.ret(q)
    axis(_ax)

V3 = 'copc::Vector3'
def vec(c, *xs):
    return c.rec(V3, x=xs[0], y=xs[1], z=xs[2])
def axes(f):
    return [f(a) for a in 'xyz']

@contract('las::LasHeader::ApplyScale(const Vector3 &) const', 'C02')
def _(c):
    c.ret(vec(c, *axes(lambda a: apply_scale(c.a(0, a), c.get('scale_.' + a), c.get('offset_.' + a)))))
@contract('las::LasHeader::ApplyInverseScale(const Vector3 &) const', 'C02')
def _(c):
    c.ret(vec(c, *axes(lambda a: div_(sub_(c.a(0, a), c.get('offset_.' + a)), c.get('scale_.' + a)))))

for op, f in (('*', mul_), ('/', div_), ('+', add_), ('-', sub_)):
    def vop(op, f):
        @contract('Vector3::operator%s(const double &) const' % op, 'C02')
        def _(c):
            c.ret(vec(c, *axes(lambda a: f(c.get(a), c.a(0)))))
        @contract('Vector3::operator%s(const Vector3 &) const' % op, 'C02')
        def _(c):
            c.ret(vec(c, *axes(lambda a: f(c.get(a), c.a(0, a)))))
    vop(op, f)

def veq(c):
    return and_(*axes(lambda a: dcmp('eq', c.get(a), c.a(0, a))))
@contract('Vector3::operator==(Vector3) const', 'C02')
def _(c):
    c.ret(veq(c))
@contract('Vector3::operator!=(Vector3) const', 'C02')
def _(c):
    c.ret(not_(veq(c)))
def vset(c, *xs):
    for a, x in zip('xyz', xs):
        c.set(a, x)
@contract('Vector3::Vector3()', 'C02')
def _(c):
    vset(c, D(0.0), D(0.0), D(0.0))
@contract('Vector3::Vector3(const double &, const double &, const double &)', 'C02')
def _(c):
    vset(c, c.a(0), c.a(1), c.a(2))
@contract('Vector3::Vector3(const std::vector<double> &)', 'C02')
def _(c):
    v = c.a(0)
    if c.throws(ne(v.n, I(3))):
        return
    vset(c, *[seq_get(v, I(i)) for i in range(3)])
@contract('Vector3::DefaultScale()', 'C02')
def _(c):
    c.ret(vec(c, D(0.01), D(0.01), D(0.01)))
@contract('Vector3::DefaultOffset()', 'C02')
def _(c):
    c.ret(vec(c, D(0.0), D(0.0), D(0.0)))
@contract('AreClose(double, double, double)', 'C04')
def _(c):
    c.ret(dcmp('lt', dop('fabs', sub_(c.a(0), c.a(1))), c.a(2)))

# header accessors used by conversions
for n, f in (('Scale', 'scale_'), ('Offset', 'offset_')):
    def hacc(n, f):
        @contract('las::LasHeader::%s() const' % n, 'C02 C11')
        def _(c):
            c.ret(c.get(f))
    hacc(n, f)

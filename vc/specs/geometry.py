"""Boxes, node bounds and octree keys (C09, C08)."""
from ..spec import *
from .utils import mul_, add_, sub_, div_, axes

BOX = 'copc::Box'
KEY = 'copc::VoxelKey'
HDR = 'copc::las::LasHeader'
BIG = 1.7976931348623157e308
ge = lambda a, b: dcmp('le', b, a)

def bset(c, b):
    for a in 'xyz':
        c.set(a + '_min', b[a + '_min'])
        c.set(a + '_max', b[a + '_max'])

def mkbox(c, xs):
    """6 bounds x_min y_min z_min x_max y_max z_max; throws when a maximum is below its minimum"""
    b = dict(zip(('x_min', 'y_min', 'z_min', 'x_max', 'y_max', 'z_max'), xs))
    if c.throws(or_(*axes(lambda a: dcmp('lt', b[a + '_max'], b[a + '_min'])))):
        return
    bset(c, b)

def six(c, x):
    return [x[0], x[1], D(-BIG), x[2], x[3], D(BIG)]

@contract('Box::Box()', 'C09')
def _(c):
    for a in 'xyz':
        c.set(a + '_min', D(0.0))
        c.set(a + '_max', D(0.0))
@contract('Box::Box(double, double, double, double, double, double)', 'C09')
def _(c):
    mkbox(c, [c.a(i) for i in range(6)])
@contract('Box::Box(double, double, double, double)', 'C09')
def _(c):
    mkbox(c, six(c, [c.a(i) for i in range(4)]))
@contract('Box::Box(const Vector3 &, const Vector3 &)', 'C09')
def _(c):
    mkbox(c, axes(lambda a: c.a(0, a)) + axes(lambda a: c.a(1, a)))
@contract('Box::Box(const std::vector<double> &)', 'C09')
def _(c):
    v = c.a(0)
    g = lambda i: seq_get(v, I(i))
    if c.throws(and_(ne(v.n, I(4)), ne(v.n, I(6)))):
        return
    four = eq(v.n, I(4))
    a, b = six(c, [g(i) for i in range(4)]), [g(i) for i in range(6)]
    mkbox(c, [vite(four, x, y) for x, y in zip(a, b)])
@contract('Box::MaxBox()', 'C09')
def _(c):
    c.ret(c.rec(BOX, **{a + s: D(v) for a in 'xyz' for s, v in (('_min', -BIG), ('_max', BIG))}))
@contract('Box::EmptyBox()', 'C09')
def _(c):
    c.ret(c.rec(BOX, **{a + s: D(0.0) for a in 'xyz' for s in ('_min', '_max')}))

def bx(c, lv):
    return {a + s: c.get(a + s, lv) for a in 'xyz' for s in ('_min', '_max')}

def intersects(p, q):
    return and_(*axes(lambda a: and_(ge(p[a + '_max'], q[a + '_min']), dcmp('le', p[a + '_min'], q[a + '_max']))))
def contains(p, q):
    """p contains q"""
    return and_(*axes(lambda a: and_(ge(p[a + '_max'], q[a + '_max']), dcmp('le', p[a + '_min'], q[a + '_min']))))
def contains_pt(p, v):
    return and_(*axes(lambda a: and_(ge(p[a + '_max'], v[a]), dcmp('le', p[a + '_min'], v[a]))))

@contract('Box::Intersects(const Box &) const', 'C09')
def _(c):
    c.ret(intersects(bx(c, c.this), bx(c, c.lv(0))))
@contract('Box::Contains(const Box &) const', 'C09')
def _(c):
    c.ret(contains(bx(c, c.this), bx(c, c.lv(0))))
@contract('Box::Within(const Box &) const', 'C09')
def _(c):
    c.ret(contains(bx(c, c.lv(0)), bx(c, c.this)))
@contract('Box::Contains(const Vector3 &) const', 'C09')
def _(c):
    c.ret(contains_pt(bx(c, c.this), {a: c.a(0, a) for a in 'xyz'}))

# ------------------------------------------------------------------ node boxes
def span(c, h):
    """largest extent of the header bounds, first axis first among equals"""
    e = axes(lambda a: sub_(c.get('max.' + a, h), c.get('min.' + a, h)))
    r = e[0]
    for x in e[1:]:
        r = ite(dcmp('lt', r, x), x, r)
    return r

def node_box(c, key, h):
    """key: {d,x,y,z} terms; h: header lvalue"""
    step = div_(span(c, h), dop('pow', D(2.0), i2d(key['d'])))
    b = {}
    for a in 'xyz':
        lo = add_(mul_(step, i2d(key[a])), c.get('min.' + a, h))
        b[a + '_min'], b[a + '_max'] = lo, add_(lo, step)
    return b

def keyof(c, lv):
    return {a: c.get(a, lv) for a in 'dxyz'}

@contract('las::LasHeader::Span() const', 'C09')
def _(c):
    c.ret(span(c, c.this))
@contract('Box::Box(const VoxelKey &, const las::LasHeader &)', 'C09')
def _(c):
    bset(c, node_box(c, keyof(c, c.lv(0)), c.lv(1)))

def keypred(name, props, f):
    @contract('VoxelKey::' + name, props)
    def _(c):
        c.ret(f(c, node_box(c, keyof(c, c.this), c.lv(0)), c.lv(1)))
H = 'const las::LasHeader &, '
keypred('Intersects(' + H + 'const Box &) const', 'C09', lambda c, b, o: intersects(b, bx(c, o)))
keypred('Contains(' + H + 'const Box &) const', 'C09', lambda c, b, o: contains(b, bx(c, o)))
keypred('Within(' + H + 'const Box &) const', 'C09', lambda c, b, o: contains(bx(c, o), b))
keypred('Crosses(' + H + 'const Box &) const', 'C09', lambda c, b, o: and_(intersects(b, bx(c, o)), not_(contains(bx(c, o), b))))
keypred('Contains(' + H + 'const Vector3 &) const', 'C09', lambda c, b, o: contains_pt(b, {a: c.get(a, o) for a in 'xyz'}))

@contract('las::LasHeader::Bounds() const', 'C09')
def _(c):
    b = {}
    for a in 'xyz':
        b[a + '_min'], b[a + '_max'] = c.get('min.' + a), c.get('max.' + a)
    if c.throws(or_(*axes(lambda a: dcmp('lt', b[a + '_max'], b[a + '_min'])))):
        return
    c.ret(c.rec(BOX, **b))

@contract('las::LasHeader::CheckAndUpdateBounds(const las::Point &)', 'C09')
def _(c):
    p = c.lv(0)
    for a in 'xyz':
        v = c.get(a + '_scaled_', p)
        lo, hi = c.get('min.' + a), c.get('max.' + a)
        c.set('min.' + a, ite(dcmp('lt', v, lo), v, lo))
        c.set('max.' + a, ite(dcmp('lt', hi, v), v, hi))

@contract('las::Point::Within(const Box &) const', 'C09 C06')
def _(c):
    c.ret(contains_pt(bx(c, c.lv(0)), {a: c.get(a + '_scaled_') for a in 'xyz'}))

# ------------------------------------------------------------------ octree keys
def kvalid(k):
    return and_(*[le(I(0), k[a]) for a in 'dxyz'])
def krec(c, d, x, y, z):
    return c.rec(KEY, d=d, x=x, y=y, z=z)
def kvite(c, cond, a, b):
    return krec(c, *[ite(cond, a[i], b[i]) for i in range(4)])
INVALID = [I(-1)] * 4
def int32(t):
    return and_(le(I(-(1 << 31)), t), le(t, I((1 << 31) - 1)))

@contract('VoxelKey::VoxelKey()', 'C08')
def _(c):
    for a in 'dxyz':
        c.set(a, I(-1))
@contract('VoxelKey::VoxelKey(int, int, int, int)', 'C08')
def _(c):
    for i, a in enumerate('dxyz'):
        c.set(a, c.a(i))
@contract('VoxelKey::VoxelKey(const std::vector<int> &)', 'C08')
def _(c):
    v = c.a(0)
    if c.throws(ne(v.n, I(4))):
        return
    for i, a in enumerate('dxyz'):
        c.set(a, seq_get(v, I(i)))
@contract('VoxelKey::InvalidKey()', 'C08')
def _(c):
    c.ret(krec(c, *INVALID))
@contract('VoxelKey::RootKey()', 'C08')
def _(c):
    c.ret(krec(c, I(0), I(0), I(0), I(0)))
@contract('VoxelKey::IsValid() const', 'C08')
def _(c):
    c.ret(kvalid(keyof(c, c.this)))

def small(k):
    """key components leave room for one more level"""
    return and_(*[and_(le(I(-(1 << 30)), k[a]), lt(k[a], I(1 << 30))) for a in 'xyz'] + [lt(k['d'], I((1 << 31) - 1))])
def kbisect(k, i):
    return [add(k['d'], I(1))] + [add(scale(k[a], 2), fmod_(fdiv_(i, 1 << j), 2)) for j, a in enumerate('xyz')]

@contract('VoxelKey::Bisect(const u64 &) const', 'C08', pre=lambda c: [('children representable', small(keyof(c, c.this)))])
def _(c):
    c.ret(krec(c, *kbisect(keyof(c, c.this), c.a(0))))
@contract('VoxelKey::GetChildren() const', 'C08', pre=lambda c: [('children representable', small(keyof(c, c.this)))])
def _(c):
    k = keyof(c, c.this)
    c.ret(lit([krec(c, *kbisect(k, I(i))) for i in range(8)]))

def kparent(c, k):
    """parent of a valid key, the invalid key otherwise"""
    return kvite(c, kvalid(k), [sub(k['d'], I(1))] + [fdiv_(k[a], 2) for a in 'xyz'], INVALID)
@contract('VoxelKey::GetParent() const', 'C08')
def _(c):
    c.ret(kparent(c, keyof(c, c.this)))

@contract('VoxelKey::GetParentAtDepth(int) const', 'C08')
def _(c):
    k, d = keyof(c, c.this), c.a(0)
    v = kvalid(k)
    if c.throws(and_(v, or_(lt(d, I(0)), lt(k['d'], d)))):
        return
    c.ret(kvite(c, v, [d] + [shr(k[a], sub(k['d'], d)) for a in 'xyz'], INVALID))

def ancestors(c, k, include):
    """keys from k (or its parent) up to depth 0; include: Bool term"""
    first = ite(include, I(0), I(1))
    n = ite(kvalid(k), sub(add(k['d'], I(1)), first), I(0))
    return tab(n, lambda i: krec(c, sub(k['d'], add(i, first)), *[shr(k[a], add(i, first)) for a in 'xyz']))
@contract('VoxelKey::GetParents(bool) const', 'C08')
def _(c):
    c.ret(ancestors(c, keyof(c, c.this), c.a(0)))

def childof(k, p):
    """p is k or an ancestor of k"""
    sh = sub(k['d'], p['d'])
    return and_(kvalid(k), le(I(0), p['d']), le(p['d'], k['d']), *[eq(shr(k[a], sh), p[a]) for a in 'xyz'])
@contract('VoxelKey::ChildOf(VoxelKey) const', 'C08')
def _(c):
    k, v = keyof(c, c.this), c.a(0)
    c.ret(childof(k, {a: c.f(v, a) for a in 'dxyz'}))

def keq(a, b):
    return and_(*[eq(a[x], b[x]) for x in 'dxyz'])
@contract('operator==(const VoxelKey &, const VoxelKey &)', 'C08')
def _(c):
    c.ret(keq(keyof(c, c.lv(0)), keyof(c, c.lv(1))))
@contract('operator!=(const VoxelKey &, const VoxelKey &)', 'C08')
def _(c):
    c.ret(not_(keq(keyof(c, c.lv(0)), keyof(c, c.lv(1)))))

@lemma('the parent of every child is the key', 'C08')
def _(L):
    k = L.object(KEY, 'k')
    L.assume(and_(kvalid(keyof(L, k)), small(keyof(L, k))))
    kids_ = L.call(L.fid('VoxelKey::GetChildren() const'), k, [])
    L.prove('eight children', eq(kids_.n, I(8)))
    i = L.var(['int', 32, False], 'i')
    L.assume(lt(i, I(8)))
    ch = L.cellv(seq_get(kids_, i))
    par = L.call(L.fid('VoxelKey::GetParent() const'), ch, [])
    L.prove('parent', keq({a: L.f(par, a) for a in 'dxyz'}, keyof(L, k)))
    L.prove('is a child', L.call(L.fid('VoxelKey::ChildOf(VoxelKey) const'), ch, [L.read(k)]))
    L.prove('valid', L.call(L.fid('VoxelKey::IsValid() const'), ch, []))

@lemma('equal keys hash equally', 'C08')
def _(L):
    a, b = L.object(KEY, 'a'), L.object(KEY, 'b')
    L.assume(L.call(L.fid('operator==(const VoxelKey &, const VoxelKey &)'), None, [a, b]))
    h = L.fid('std::hash<VoxelKey>::operator()(const VoxelKey &) const')
    o = L.object(h.split('::operator()')[0], 'h')
    x, y = L.inline(h, o, [a]), L.inline(h, o, [b])
    L.prove('hash', eq(x, y))

"""Finding nodes in the page tree of a file (C16, C22)."""
from ..spec import *
from .streams import *
from .entry import *
from .hier import HI, SEEN, LOADED, root, new_page
from .geometry import keyof, kvalid, ancestors, node_box, contains, contains_pt, intersects, bx
from .reading import rstream, goto, cheader, header_ok, positioned, point_bytes, unpacked, alive, page_entries, bad_entry
from .extents import exists_slot
from .point import fmt_ok
from .points import PCLS, select, inside, hv3, multiple
from .records import point_at
from .point import base_size
from ..stdlib import uchar
from .config import ICLS
from ..loops import close

RD, WR = 'copc::Reader', 'copc::Writer'
ek = fresh('ek', 'I', 0, None)

def rhier(c):
    return c.obj(c.get('hierarchy_'), HI)
def is_page_entry(c, e):
    return and_(eq(c.f(e, 'point_count'), I(-1)), not_(bad_entry(c, e)))
def load(c, page):
    """the page is read; its entries become known nodes of this page and known pages below it, unread"""
    if c.clsof(c.this) == WR:          # a writer reads no pages
        c.throws()
        return None
    r = page_entries(c, page)
    if r is None:
        return None
    return enter(c, page, *r)
def enter(c, page, n, e):
    sub = lambda k: is_page_entry(c, e(k))
    def make(k):
        v = e(k)
        p = c.new(PI, {'key': c.f(v, 'key'), 'offset': c.f(v, 'offset'), 'byte_size': c.f(v, 'byte_size'), 'point_count': c.f(v, 'point_count'),
                       'loaded': FALSE, 'sub_pages': c.empty_map(PI, 'sub_pages'), 'nodes': c.empty_map(PI, 'nodes')})
        d = c.new(NODE, {'key': c.f(v, 'key'), 'offset': c.f(v, 'offset'), 'byte_size': c.f(v, 'byte_size'), 'point_count': c.f(v, 'point_count'),
                         'page_key': c.get('key', page)})
        return p, d
    ps, ds = each2(c, n, make)
    h = rhier(c)
    key = lambda k: c.f(e(k), 'key')
    def up(name, lv, g, ky, val):
        m = c.get(name, lv)
        c.set(name, m.up('each', g, ky, val, ek, n), lv)
    up(SEEN, h, sub(ek), key(ek), ps(ek))
    up('sub_pages', page, sub(ek), ps(ek), TRUE)
    up(LOADED, h, not_(sub(ek)), key(ek), ds(ek))
    up('nodes', page, not_(sub(ek)), key(ek), ds(ek))
    return n
def each2(c, n, f):
    box = []
    def g(k):
        p, d = f(k)
        box.append((k, p, d))
        return None
    c.each(n, g)
    k, p, d = box[-1]
    return (lambda i: subst(p, {k: i})), (lambda i: subst(d, {k: i}))
@contract('BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &)', 'C16', dyns=[RD, WR],
          pre=lambda c: [('a page', ne(c.a(0), I(0)))], throw_any=True)
def _(c):
    load(c, c.obj(c.a(0), PI))

# ------------------------------------------------------------------ lookup
FOOT = lambda c: [c.key(HI, SEEN), c.key(HI, LOADED), c.key(PI, 'sub_pages'), c.key(PI, 'nodes'), c.key(PI, 'loaded')]
def known(c, key):
    """what is known under a key is there"""
    h = rhier(c)
    seen, loaded = c.get(SEEN, h), c.get(LOADED, h)
    return [('a known node is there', implies(c.map_has(loaded, key), ne(c.map_get(loaded, key), I(0))))]
def pages_there(c):
    h = rhier(c)
    seen = c.get(SEEN, h)
    en = c.listing(seen)
    return [('known pages are there', c.ex.forall(en.n, ek, ne(c.map_get(seen, en.key(ek)), I(0))))]
def node_or_none(c, ref, has):
    inv = c.rec(NODE, key=invalid(c), offset=NOOFF, byte_size=I(-1), point_count=I(-1), page_key=invalid(c))
    return vite(has, c.read(c.obj(ref, NODE)), inv)
def nearest_page(c, keys):
    seen = c.get(SEEN, rhier(c))
    h, i = c.ex.exists(keys.n, ek, c.map_has(seen, seq_get(keys, ek)))
    return ite(h, c.map_get(seen, seq_get(keys, i)), I(0))
@contract('BaseIO::FindNode(VoxelKey)', 'C16', dyns=[RD, WR], tail=True, opaque=FOOT, stream=lambda c: reading_on(c), throw_any=True,
          pre=lambda c: known(c, c.a(0)))
def _(c):
    key, loaded = c.a(0), c.get(LOADED, rhier(c))
    has = c.map_has(loaded, key)
    found = node_or_none(c, c.map_get(loaded, key), has)
    p = nearest_page(c, ancestors(c, keyof(c, c.lv(0)), TRUE))
    def more():
        if load(c, c.obj(p, PI)) is not None:
            c.again(key)
    c.when(and_(not_(has), ne(p, I(0)), not_(c.get('loaded', c.obj(p, PI)))), more)
    c.ret(found)

def reading_on(c):
    """a reader reads on in its stream; the stream keeps its bytes"""
    return ('r', rstream(c)) if c.clsof(c.this) == RD else None

# ------------------------------------------------------------------ asking by key
FIND = 'BaseIO::FindNode(VoxelKey)'
def by_key(c, then, none=None):
    """what the node found under the key gives; nothing for an invalid key and for a key without a node"""
    key = c.lv(0)
    def valid():
        node = c.ex.cell(c.st, c.call(c.fid(FIND), c.this, [c.read(key)]), 'found')
        if c.st.pc is not FALSE:
            c.when(evalid(c, node), lambda: then(node), none)
    c.when(kvalid(keyof(c, key)), valid, none)
def key_pre(f=None):
    def pre(c):
        out = known(c, c.a(0)) + header_ok(c, cheader(c))
        st = c.st
        c.st = st.copy()
        obs, thr = list(c.ex.obs), list(c.ex.throws)
        node = c.ex.cell(c.st, c.call(c.fid(FIND), c.this, [c.a(0)]), 'found')
        out += f(c, node) if f else positioned(c, node)
        c.ex.obs[:], c.ex.throws[:] = obs, thr
        c.st = st
        return out
    return pre
@contract('Reader::GetPointData(const VoxelKey &)', 'C24', pre=key_pre(), throw_any=True)
def _(c):
    out = c.ex.cell(c.st, Seq(), 'out')
    def then(node):
        r = point_bytes(c, node, cheader(c))
        if r is not None:
            c.write(out, r)
    by_key(c, then)
    c.ret(c.read(out))
def raw_there(c, node):
    return positioned(c, node) + [('the chunk lies in the file', le(add(c.get('offset', node), c.get('byte_size', node)), c.read(rstream(c)).f['data'].n))]
def raw_bytes(c, node):
    goto(c, c.get('offset', node))
    n = c.get('byte_size', node)
    at = take(c, rstream(c), n)
    return tab(n, lambda i: wrap(at(i), 8, True))
@contract('Reader::GetPointDataCompressed(const VoxelKey &)', 'C24', pre=key_pre(raw_there), throw_any=True)
def _(c):
    out = c.ex.cell(c.st, Seq(), 'out')
    by_key(c, lambda node: c.write(out, raw_bytes(c, node)))
    c.ret(c.read(out))
def no_points(c, h):
    f, n = c.get('point_format_id_', h), c.get('point_record_length_', h)
    return None if c.throws(not_(fmt_ok(f))) else c.rec(PCLS, points_=Seq(), point_format_id_=f, point_record_length_=n)
def node_points(c, node, h):
    """the points of a node"""
    data = point_bytes(c, node, h)
    if data is None:
        return None
    unpacked(c, data, h)
    r, c.retval = c.retval, None
    return None if c.st.pc is FALSE else r
@contract('Reader::GetPoints(const VoxelKey &)', 'C24', pre=key_pre(), throw_any=True)
def _(c):
    h = cheader(c)
    out = c.ex.cell(c.st, c.T.zero(c.ex, ['rec', PCLS, PCLS, []]), 'out')
    def none():
        v = no_points(c, h)
        if v is not None:
            c.write(out, v)
    def then(node):
        v = node_points(c, node, h)
        if v is not None:
            c.write(out, v)
    by_key(c, then, none)
    if c.st.pc is not FALSE:
        c.ret(c.read(out))

# ------------------------------------------------------------------ listing and queries
KIDS = 'Reader::GetAllChildrenOfPage(const VoxelKey &)'
def all_nodes(c):
    """every node of the file, in the order of the page tree"""
    return c.call(c.fid(KIDS), c.this, [c.ex.cell(c.st, root(c), 'root')])
WALK = 'BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &, std::vector<Node> &)'
OPEN = dict(opaque=FOOT, stream=lambda c: reading_on(c), lockstep=True, throw_any=True)
@contract(WALK, 'C16', dyns=[RD, WR], recursive=True, outs=('loaded_nodes',), pre=lambda c: [('a page', ne(c.a(0), I(0)))], **OPEN)
def _(c):
    """reads the page if it has not been read, walks its sub-pages in order, then lists its own nodes"""
    page, out = c.obj(c.a(0), PI), c.lv(1)
    def go():
        c.when(not_(c.get('loaded', page)), lambda: load(c, page))
        if c.st.pc is FALSE:
            return
        subs = c.listing(c.get('sub_pages', page))
        i = c.ex.cell(c.st, I(0), 'i')
        def one():
            p = c.ex.cell(c.st, subs.key(c.read(i)), 'sub')
            c.call(c.fid(WALK), c.this, [p, out])
            if c.st.pc is not FALSE:
                c.write(i, add(c.read(i), I(1)))
        c.loop([out, i], lambda: lt(c.read(i), subs.n), one)
        m = c.get('nodes', page)
        own = c.listing(m)
        c.write(out, cat(c.read(out), tab(own.n, lambda k: c.read(c.obj(c.map_get(m, own.key(k)), NODE)))))
    c.when(pvalid(c, page), go)
@contract(KIDS, 'C16', dyns=[RD], pre=lambda c: known(c, c.a(0)), **OPEN)
def _(c):
    """the nodes of the page with this key and of all pages below it; of a key without page the node itself, if there is one"""
    key = c.a(0)
    out = c.ex.cell(c.st, Seq(), 'out')
    def go():
        node = c.ex.cell(c.st, c.call(c.fid(FIND), c.this, [key]), 'node')
        if c.st.pc is FALSE:
            return
        up = ancestors(c, keyof(c, c.lv(0)), TRUE)
        p = c.ex.cell(c.st, nearest_page(c, up), 'p')
        def unread():
            q = c.obj(c.read(p), PI)
            return and_(ne(c.read(p), I(0)), not_(c.get('loaded', q)), not_(key_eq(c.get('key', q), key)))
        def step():
            load(c, c.obj(c.read(p), PI))
            if c.st.pc is not FALSE:
                c.write(p, nearest_page(c, up))
        c.loop([p], unread, step)
        seen = c.get(SEEN, rhier(c))
        def below():
            q = c.ex.cell(c.st, c.map_get(seen, key), 'page')
            c.call(c.fid(WALK), c.this, [q, out])
        c.when(c.map_has(seen, key), below,
               lambda: c.when(evalid(c, node), lambda: c.write(out, lit([c.read(node)]))))
    c.when(kvalid(keyof(c, c.lv(0))), go)
    if c.st.pc is not FALSE:
        c.ret(c.read(out))
@contract('Reader::GetAllNodes()', 'C16', throw_any=True)
def _(c):
    c.ret(all_nodes(c))
def seq_max(c, n, f):
    """the greatest of -1 and f(0), ..., f(n - 1)"""
    p, k = fresh('p', 'I', None, None), fresh('k', 'I', 0, None)
    v = f(k)
    return subst(close(c.ex, ite(lt(p, v), v, p), p, I(-1), k), {k: n})
def depth_for(c, resolution):
    """the first depth whose spacing (that of the file, halved once per level) is at most the resolution; the deepest node's
    depth for a resolution that is not positive and when no depth is fine enough"""
    nodes = all_nodes(c)
    if c.st.pc is FALSE:
        return None
    deepest = seq_max(c, nodes.n, lambda k: c.f(c.f(seq_get(nodes, k), 'key'), 'd'))
    p, k = fresh('p', 'D'), fresh('k', 'I', 0, None)
    spacing = close(c.ex, dop('fdiv', p, D(2.0)), p, c.get('spacing', c.obj(c.get('config_.copc_info_'), ICLS)), k)
    some, i = c.ex.exists(ite(le(I(0), deepest), add(deepest, I(1)), I(0)), ek, dcmp('le', subst(spacing, {k: ek}), resolution))
    return ite(or_(dcmp('le', resolution, D(0.0)), not_(some)), deepest, i)
def apart(f):
    """a precondition about what a later call in the function finds"""
    def pre(c):
        st, obs, thr = c.st, list(c.ex.obs), list(c.ex.throws)
        c.st = st.copy()
        out = f(c)
        pc = c.st.pc
        c.ex.obs[:], c.ex.throws[:], c.st = obs, thr, st
        return [(n, implies(pc, t)) for n, t in out]
    return pre
def levels(c):
    nodes = all_nodes(c)
    return [('the hierarchy has fewer than 2^31 - 1 levels', lt(seq_max(c, nodes.n, lambda k: c.f(c.f(seq_get(nodes, k), 'key'), 'd')), I((1 << 31) - 1)))]
levels = apart(levels)
def pages_found(c):
    all_nodes(c)
    return pages_there(c)
@contract('Reader::GetPageList()', 'C16', throw_any=True, pre=apart(pages_found))
def _(c):
    """the key of every page, once the whole tree has been read"""
    all_nodes(c)
    if c.st.pc is FALSE:
        return
    seen = c.get(SEEN, rhier(c))
    en = c.listing(seen)
    c.ret(tab(en.n, lambda i: c.get('key', c.obj(c.map_get(seen, en.key(i)), PI))))
@contract('Reader::GetDepthAtResolution(double)', 'C17', throw_any=True, pre=levels)
def _(c):
    d = depth_for(c, c.a(0))
    if d is not None:
        c.ret(d)
@contract('Reader::GetMaxDepth()', 'C17', throw_any=True, pre=levels)
def _(c):
    d = depth_for(c, D(-1.0))
    if d is not None:
        c.ret(d)
def kd(c, v):
    return c.f(c.f(v, 'key'), 'd')
def query(name, props, ok, depth):
    """the nodes of the file, in order, for which ok holds"""
    @contract('Reader::' + name, props, throw_any=True, pre=levels)
    def _(c):
        d = depth_for(c, c.a(depth))
        if d is None:
            return
        nodes = all_nodes(c)
        if c.st.pc is FALSE:
            return
        c.ret(select(c, nodes, lambda v: ok(c, v, d)))
query('GetNodesAtResolution(double)', 'C17', lambda c, v, d: eq(kd(c, v), d), 0)
query('GetNodesWithinResolution(double)', 'C17', lambda c, v, d: le(kd(c, v), d), 0)
def box_of(c, v):
    return node_box(c, {a: c.f(c.f(v, 'key'), a) for a in 'dxyz'}, cheader(c))
query('GetNodesWithinBox(const Box &, double)', 'C18', lambda c, v, d: and_(contains(bx(c, c.lv(0)), box_of(c, v)), le(kd(c, v), d)), 1)
query('GetNodesIntersectBox(const Box &, double)', 'C18', lambda c, v, d: and_(intersects(box_of(c, v), bx(c, c.lv(0))), le(kd(c, v), d)), 1)

# ------------------------------------------------------------------ points of a query
def gathered(c, nodes, h, pick):
    """the points picked from the nodes, in order: pick(k, node, points) -> what to take"""
    def one(k):
        node = c.ex.cell(c.st, seq_get(nodes, k), 'node')
        return pick(node)
    ps = c.each(nodes.n, one, throws=True, skip=('%stream',))
    lv = rstream(c)
    c.write(lv, c.read(lv).set('g', c.havoc(['int', 64, False])))
    return ps
def points_pre(depth):
    def f(c):
        if depth is not None and depth_for(c, c.a(depth)) is None:
            return []
        nodes = all_nodes(c)
        return [('the offsets of nodes are positions in a file', c.ex.forall(nodes.n, ek, le(c.f(seq_get(nodes, ek), 'offset'), I((1 << 63) - 1))))]
    return lambda c: (levels(c) if depth is not None else []) + header_ok(c, cheader(c)) + apart(f)(c)
def points_of(name, props, depth, pick):
    @contract('Reader::' + name, props, throw_any=True, pre=points_pre(depth))
    def _(c):
        h = cheader(c)
        out = no_points(c, h)
        if out is None:
            return
        d = depth_for(c, c.a(depth))
        if d is None:
            return
        nodes = all_nodes(c)
        if c.st.pc is FALSE:
            return
        def one(node):
            res = c.ex.cell(c.st, Seq(), 'res')
            all_of = lambda: c.f(node_points(c, node, h), 'points_')
            c.when(le(c.get('key.d', node), d), lambda: pick(c, node, all_of, lambda v: c.write(res, v)))
            return c.read(res)
        ps = gathered(c, nodes, h, one)
        if ps is not None:
            c.ret(out.set(c.key(PCLS, 'points_'), ps))
points_of('GetAllPoints(double)', 'C16 C17', 0, lambda c, node, all_of, take: take(all_of()))
def in_box(c, node, all_of, take):
    """all points of a node inside the box; of a node that crosses it those inside the box; of others none"""
    b, nb = bx(c, c.lv(0)), box_of(c, c.read(node))
    def some():
        v = all_of()
        take(select(c, v, lambda r: inside(c, r, b)))
    c.when(contains(b, nb), lambda: take(all_of()), lambda: c.when(intersects(nb, b), some))
points_of('GetPointsWithinBox(const Box &, double)', 'C18', 1, in_box)

# ------------------------------------------------------------------ validation
@contract('Reader::ValidateSpatialBounds(bool)', 'C19', throw_any=True, dyns=[RD + '|verbose=0', RD + '|verbose=1'], pre=points_pre(None))
def _(c):
    """every node's box meets the bounds of the header, the points of a node not inside them are, and every point is in the
    box of its node; silent validation stops at the first that is not, so that nodes after it are not read"""
    h = cheader(c)
    hb = {a + '_' + s: c.get('%s.%s' % (s, a), h) for a in 'xyz' for s in ('min', 'max')}
    nodes = all_nodes(c)
    if c.st.pc is FALSE:
        return
    wrong = or_(*[dcmp('lt', hb[a + '_max'], hb[a + '_min']) for a in 'xyz'])
    def node(k):
        """(asking for this node throws, it or one of its points is out of bounds)"""
        v = seq_get(nodes, k)
        lv, b = c.ex.cell(c.st, v, 'node'), box_of(c, v)
        meets = intersects(b, hb)
        f, rl = c.get('point_format_id_', h), c.get('point_record_length_', h)
        st, thr = c.st, c.ex.throws
        c.st, c.ex.throws = st.copy(), []
        data = point_bytes(c, lv, h)
        c.st, c.ex.throws = st, thr
        sc, of = hv3(c, h, 'scale_'), hv3(c, h, 'offset_')
        def xyz(j):
            at = lambda i: uchar(seq_get(data, add(mul(j, rl), i if isinstance(i, Term) else I(i))))
            return point_at(c, at, f, sub(rl, base_size(f)), sc, of)
        n = multiple(data.n, rl)
        if n is None:
            n = tdiv(data.n, rl)
        out = lambda box: c.ex.exists(n, ek, not_(contains_pt(box, xyz(ek))))[0]
        bad = or_(not_(meets), and_(not_(contains(hb, b)), out(hb)), out(b))
        return or_(wrong, and_(meets, or_(not_(evalid(c, lv)), not_(fmt_ok(f))))), bad
    k = fresh('n', 'I', 0, None)
    T, B = node(k)
    def loud():
        if not c.throws(c.ex.exists(nodes.n, k, T)[0]):
            c.write(out, not_(c.ex.exists(nodes.n, k, B)[0]))
    def quiet():
        some, w = c.ex.exists(nodes.n, k, or_(T, B))
        if not c.throws(and_(some, subst(T, {k: w}))):
            c.write(out, not_(some))
    out = c.ex.cell(c.st, TRUE, 'out')
    c.when(c.a(0), loud, quiet)
    lv = rstream(c)
    c.write(lv, c.read(lv).set('g', c.havoc(['int', 64, False])))
    c.ret(c.read(out))

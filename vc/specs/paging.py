"""Writing the hierarchy (C22)."""
from ..spec import *
from .geometry import keyof, kvalid, krec, keq, kparent
from .streams import *
from .entry import *
from .hier import HI, SEEN, LOADED, root
from .writer import *
from .config import ICLS
from .lazenc import *
from ..stdlib import decimal
def key_text(c, k):
    t = lit([])
    for i, f in enumerate('dxyz'):
        t = cat(t, bytes_lit(b'(' if i == 0 else b', '), decimal(c.get(f, k)))
    return cat(t, bytes_lit(b')'))
@contract('VoxelKey::ToString() const', 'C22')
def _(c):
    c.ret(key_text(c, c.this))

pk = fresh('pk', 'I', 0, None)
def node_at(c, page, i):
    m = c.get('nodes', page)
    return c.obj(c.map_get(m, c.listing(m).key(i)), NODE)
def sub_at(c, page, i):
    return c.obj(c.listing(c.get('sub_pages', page)).key(i), PI)
def there(c, page):
    """no null node or sub-page"""
    a, b = c.listing(c.get('nodes', page)).n, c.listing(c.get('sub_pages', page)).n
    return [('the nodes of the page are there', c.ex.forall(a, pk, ne(node_at(c, page, pk)[1], I(0)))),
            ('the sub-pages of the page are there', c.ex.forall(b, pk, ne(sub_at(c, page, pk)[1], I(0))))]
def write_page(c, page):
    """one EVLR: an entry per node, then one per direct sub-page"""
    cf, o = conf(c, cls=CWCLS), out(c)
    a, b = c.listing(c.get('nodes', page)).n, c.listing(c.get('sub_pages', page)).n
    size = mul(I(32), add(a, b))
    seek_end(c, o)
    head(c, 'evlr_header', head_of(c, 'evlr_header', b'copc', 1000, size, key_text(c, c.flv('key', page))))
    at = c.read(o).f['p']
    c.set('offset', at, page)
    if c.throws(lt(I(MAX31), size)):
        return
    c.set('byte_size', size, page)
    def root_page():
        c.set('root_hier_offset', at, iobj(c, cf))
        c.set('root_hier_size', size, iobj(c, cf))
    c.when(key_eq(c.get('key', page), root(c)), root_page)
    over(c, o, Seq([Flat(a, pk, lit(pack_of(c, node_at(c, page, pk))))]))
    over(c, o, Seq([Flat(b, pk, lit(pack_of(c, sub_at(c, page, pk))))]))
def wpage(c):
    return c.obj(c.a(0), PI)
@contract(WI + '::WritePage(const std::shared_ptr<Internal::PageInternal> &)', 'C22',
          pre=lambda c: ok_out(c) + copc_config(c) + [('a page', ne(c.a(0), I(0)))] + there(c, wpage(c)))
def _(c):
    write_page(c, wpage(c))

up = fresh('up', 'I', 0, None)
def rkey(r):
    return {f.split('::')[-1]: v for f, v in r.f.items()}
def walk(c, k):
    """key of the closest page above k: up one parent at a time, at most until the keys stop being valid"""
    p = rkey(kparent(c, k))
    at = lambda j: krec(c, sub(p['d'], j), *[shr(p[a], j) for a in 'xyz'])
    return at
def nearest(c, seen, k):
    """(does the walk up from k leave the valid keys, reference of the page it stops at)"""
    at = walk(c, k)
    ok = lambda j: kvalid(rkey(at(j)))
    stop = lambda j: or_(c.map_has(seen, at(j)), not_(and_(ok(j), ok(add(j, I(1))))))
    some, j = c.ex.exists(I(1 << 48), up, stop(up))
    return and_(some, not_(c.map_has(seen, at(j)))), c.map_get(seen, at(j))
def attach(c, h, above=nearest):
    """every page but the root becomes a sub-page of the closest page above it"""
    seen = c.get(SEEN, h)
    en = c.listing(seen)
    isroot = lambda i: key_eq(en.key(i), root(c))
    if c.throws(c.ex.exists(en.n, pk, and_(not_(isroot(pk)), above(c, seen, rkey(en.key(pk)))[0]))[0]):
        return
    c.gather('sub_pages', PI, en.n, lambda i: (not_(isroot(i)), above(c, seen, rkey(en.key(i)))[1], c.map_get(seen, en.key(i)), TRUE))
def pages_ok(c, h):
    seen = c.get(SEEN, h)
    en = c.listing(seen)
    return [('pages are there', c.ex.forall(en.n, pk, ne(c.map_get(seen, en.key(pk)), I(0))))]
def whier(c):
    return c.obj(c.get('hierarchy_'), HI)
@contract(WI + '::ComputePageHierarchy()', 'C22', pre=lambda c: pages_ok(c, whier(c)), throw_any=True)
def _(c):
    attach(c, whier(c))

TREE = WI + '::WritePageTree(const std::shared_ptr<Internal::PageInternal> &)'
def tree_foot(c):
    return [(c.key(PI, 'offset'), PI), (c.key(PI, 'byte_size'), PI), c.key(ICLS, 'root_hier_offset'), c.key(ICLS, 'root_hier_size')]
@contract(TREE, 'C22', recursive=True, lockstep=True, throw_any=True, opaque=tree_foot, stream=lambda c: ('w', out(c)),
          setup=lambda c: c.ex.fact(dyn_is(c, c.a(0), PI)),     # by the type of the parameter
          pre=lambda c: at_end(c) + copc_config(c))
def _(c):
    """the sub-pages of the page in order, each with all below it, then the page itself"""
    page = c.obj(c.a(0), PI)
    def go():
        subs = c.listing(c.get('sub_pages', page))
        i = c.ex.cell(c.st, I(0), 'i')
        def one():
            p = c.ex.cell(c.st, subs.key(c.read(i)), 'sub')
            c.call(c.fid(TREE), c.this, [p])
            if c.st.pc is not FALSE:
                c.write(i, add(c.read(i), I(1)))
        c.loop([i], lambda: lt(c.read(i), subs.n), one)
        write_page(c, page)
    c.when(ne(c.a(0), I(0)), go)
def whole_close(c):
    h = whier(c)
    ps = room(c) + copc_ready(c, conf(c, cls=CWCLS)) + pages_ok(c, h) + [('the root page is known', c.map_has(c.get(SEEN, h), root(c)))]
    return [(n, implies(c.get('open_'), t)) for n, t in ps]
@contract(WI + '::Close()', 'C21 C22', throw_any=True, pre=whole_close)
def _(c):
    """chunk table, pages, WKT and header, once; the EVLRs start where the pages do and are counted"""
    def go():
        write_table(c)
        seek_end(c, out(c))
        c.set('evlr_offset_', c.read(out(c)).f['p'])
        h = whier(c)
        c.set('evlr_count_', wrap(add(c.get('evlr_count_'), wrap(c.map_size(c.get(SEEN, h)), 32, False)), 32, False))
        attach(c, h)
        if c.st.pc is FALSE:
            return
        c.call(c.fid(TREE), c.this, [c.ex.cell(c.st, c.map_get(c.get(SEEN, h), root(c)), 'root')])
        if c.st.pc is FALSE:
            return
        write_wkt(c)
        copc_head(c)
        if c.st.pc is not FALSE:
            c.set('open_', FALSE)
    c.when(c.get('open_'), go)

def inner_close(c):
    w = c.obj(c.get('writer_'), WCLS)
    old, c.this = c.this, w
    ps = whole_close(c)
    c.this = old
    return ps + [('the inner writer writes COPC', dyn_is(c, c.get('writer_'), WCLS))]
@contract('Writer::Close()', 'C21 C22', throw_any=True, pre=inner_close)
def _(c):
    c.call(c.fid(WI + '::Close()'), c.obj(c.get('writer_'), WCLS), [])

BFW, LFW, FW = 'laz::BaseFileWriter', 'laz::LazFileWriter', 'FileWriter'
FS = 'f_stream_'
def close_file(c):
    lv = c.flv(FS)
    s = c.read(lv)
    c.write(lv, s.set('open', FALSE))
@contract(BFW + '::Close()', 'C21')
def _(c):
    close_file(c)

# ------------------------------------------------------------------ destructors close
@contract(BW + '::~BaseWriter()', 'C21', dyns=(BCLS,), pre=closing)
def _(c):
    c.call(c.fid(BW + '::Close()'), c.this, [])
@contract(WI + '::~WriterInternal()', 'C21 C22', throw_any=True, pre=whole_close)
def _(c):
    c.call(c.fid(WI + '::Close()'), c.this, [])
@contract('Writer::~Writer()', 'C21 C22', throw_any=True, pre=inner_close)
def _(c):
    c.call(c.fid('Writer::Close()'), c.this, [])

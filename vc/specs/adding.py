"""Adding and moving nodes (C20)."""
from ..spec import *
from .geometry import keyof, kvalid, krec, keq, KEY, childof
from .streams import *
from .entry import *
from .hier import HI, SEEN, LOADED, root, new_page
from .points import pinv
from .writer import *
from .config import HCLS

W = 'Writer::'
def hier(c):
    return c.obj(c.get('hierarchy_'), HI)
def inner(c):
    return c.obj(c.get('writer_'), WCLS)
def cfg(c):
    return c.obj(c.get('config_'), CWCLS)
class sub_ctx:
    """the same specification state seen from another object"""
    def __init__(self, c, this):
        self.c, self.this = c, this
    def __enter__(self):
        self.old = self.c.this
        self.c.this = self.this
        return self.c
    def __exit__(self, *a):
        self.c.this = self.old
def wired(c):
    """the parts of a writer belong together"""
    with sub_ctx(c, inner(c)):
        pre = chunk_pre(c)
        w = c.get('config_')
        h = c.get('hierarchy_')
    return pre + [('the writer writes with the configuration it reports', eq(w, c.get('config_'))),
                  ('the writer shares the hierarchy', eq(h, c.get('hierarchy_'))),
                  ('the inner writer writes COPC', dyn_is(c, c.get('writer_'), WCLS))]
@contract(W + 'PageExists(const VoxelKey &)', 'C20')
def _(c):
    c.ret(c.map_has(c.get(SEEN, hier(c)), c.a(0)))
def page_for(c, key):
    """reference of the page with this key, created if there is none"""
    h = hier(c)
    has = c.map_has(c.get(SEEN, h), key)
    p = new_page(c, key, I(-1), I(-1), TRUE)
    c.map_set(SEEN, key, p, h, not_(has))
    return ite(has, c.map_get(c.get(SEEN, h), key), p)
def add_node(c, key, data, count, compressed, page):
    """key, page: lvalues"""
    kk, pk = keyof(c, key), keyof(c, page)
    if c.throws(or_(not_(kvalid(pk)), not_(kvalid(kk)))):
        return
    if c.throws(not_(childof(kk, pk))):
        return
    e = c.ex.cell(c.st, mkentry(c, c.read(key), NOOFF, I(-1), I(-1)), 'spec')
    with sub_ctx(c, inner(c)):
        n = write_chunk(c, data, count, compressed, c.flv('offset', e), c.flv('byte_size', e))
    if n is None:
        return
    node = c.new(NODE, {'key': c.read(key), 'offset': c.get('offset', e), 'byte_size': c.get('byte_size', e), 'point_count': n,
                        'page_key': c.read(page)})
    c.map_set(LOADED, c.read(key), node, hier(c))
    p = c.obj(page_for(c, c.read(page)), PI)
    c.map_set('nodes', c.read(key), node, p)
    c.ret(c.read(c.obj(node, NODE)))
@contract(W + 'DoAddNode(const VoxelKey &, const std::vector<char> &, int, bool, const VoxelKey &)', 'C20', pre=wired)
def _(c):
    add_node(c, c.lv(0), c.a(1), c.a(2), c.a(3), c.lv(4))
@contract(W + 'AddNodeCompressed(const VoxelKey &, const std::vector<char> &, int, const VoxelKey &)', 'C20', pre=wired)
def _(c):
    if c.throws(le(c.a(2), I(0))):
        return
    add_node(c, c.lv(0), c.a(1), c.a(2), TRUE, c.lv(3))
def add_raw(c, key, data, page):
    n = c.get('point_record_length_', hobj(c, cfg(c)))
    if c.throws(or_(eq(data.n, I(0)), ne(tmod(data.n, n), I(0)))):
        return
    add_node(c, key, data, I(0), FALSE, page)
@contract(W + 'AddNode(const VoxelKey &, const std::vector<char> &, const VoxelKey &)', 'C20', pre=wired)
def _(c):
    add_raw(c, c.lv(0), c.a(1), c.lv(2))
@contract(W + 'AddNode(const VoxelKey &, const las::Points &, const VoxelKey &)', 'C20', pre=lambda c: wired(c) + pinv(c, c.lv(1)))
def _(c):
    p, h = c.lv(1), hobj(c, cfg(c))
    if c.throws(or_(eq(c.get('points_', p).n, I(0)), alien(c, p, h))):
        return
    data = c.call(c.fid(PACKH), p, [h])
    if c.st.pc is not FALSE:
        add_raw(c, c.lv(0), data, c.lv(2))
@contract(W + 'CopcConfig()', 'C14')
def _(c):
    c.ret(c.get('config_'))
def registered(c, key):
    """a known node carries its key and the page it is listed in, which exists"""
    h = hier(c)
    loaded, seen = c.get(LOADED, h), c.get(SEEN, h)
    n = c.obj(c.map_get(loaded, key), NODE)
    has = c.map_has(loaded, key)
    return [('a known node is there', implies(has, ne(c.map_get(loaded, key), I(0)))),
            ('the page of a known node exists', implies(has, c.map_has(seen, c.get('page_key', n)))),
            ('the page of a known node is there', implies(has, ne(c.map_get(seen, c.get('page_key', n)), I(0)))),
            ('the node carries its key', implies(has, key_eq(c.get('key', n), key))),
            ('the page of the node carries its key', implies(and_(has, c.map_has(seen, c.get('page_key', n))),
                                                  key_eq(c.get('key', c.obj(c.map_get(seen, c.get('page_key', n)), PI)), c.get('page_key', n))))]
@contract(W + 'ChangeNodePage(const VoxelKey &, const VoxelKey &)', 'C20', pre=lambda c: registered(c, c.a(0)) + page_there(c, c.a(1)) + page_named(c, c.a(1)))
def _(c):
    kk, pk = keyof(c, c.lv(0)), keyof(c, c.lv(1))
    if c.throws(or_(not_(kvalid(kk)), not_(kvalid(pk)))):
        return
    h = hier(c)
    if c.throws(not_(c.map_has(c.get(LOADED, h), c.a(0)))):
        return
    if c.throws(not_(childof(kk, pk))):
        return
    ref = c.map_get(c.get(LOADED, h), c.a(0))
    node = c.obj(ref, NODE)
    def move():
        old = c.get('page_key', node)
        p = c.obj(page_for(c, c.a(1)), PI)
        c.map_set('nodes', c.a(0), ref, p)
        q = c.obj(c.map_get(c.get(SEEN, h), old), PI)
        c.map_del('nodes', c.a(0), q)
        empty = eq(c.map_size(c.get('nodes', q)), I(0))
        c.map_del(SEEN, old, h, and_(empty, not_(key_eq(old, root(c)))))
        c.set('page_key', c.a(1), node)
    c.when(not_(key_eq(c.get('page_key', node), c.a(1))), move)
def page_named(c, key):
    seen = c.get(SEEN, hier(c))
    return [('a known page carries its key', implies(c.map_has(seen, key), key_eq(c.get('key', c.obj(c.map_get(seen, key), PI)), key)))]
def page_there(c, key):
    seen = c.get(SEEN, hier(c))
    return [('a known page is there', implies(c.map_has(seen, key), ne(c.map_get(seen, key), I(0))))]

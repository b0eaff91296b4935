"""The page and node bookkeeping shared by reader and writer."""
from ..spec import *
from .geometry import keyof, kvalid, krec, keq, KEY
from .entry import *

HI = 'copc::Internal::Hierarchy'
SEEN, LOADED = 'seen_pages_', 'loaded_nodes_'
def root(c):
    return krec(c, *[I(0)] * 4)
def new_page(c, key, offset, size, loaded=FALSE):
    return c.new(PI, {'key': key, 'offset': wrap(offset, 64, False), 'byte_size': size, 'point_count': I(-1), 'loaded': loaded,
                      'sub_pages': c.empty_map(PI, 'sub_pages'), 'nodes': c.empty_map(PI, 'nodes')})
def start(c, offset, size, loaded):
    c.set(SEEN, c.empty_map(HI, SEEN).up('set', TRUE, root(c), new_page(c, root(c), offset, size, loaded)))
    c.set(LOADED, c.empty_map(HI, LOADED))

@contract('Internal::PageInternal::PageInternal(Entry)', 'C10 C16')
def _(c):
    v = c.a(0)
    eset(c, c.f(v, 'key'), *[c.f(v, f) for f in FIELDS])
    page_rest(c)
def page_rest(c):
    c.set('loaded', FALSE)
    for f in ('sub_pages', 'nodes'):
        c.set(f, c.empty_map(PI, f))
@contract('Internal::PageInternal::PageInternal(VoxelKey, long, int)', 'C10 C16')
def _(c):
    eset(c, c.a(0), wrap(c.a(1), 64, False), c.a(2), I(-1))
    page_rest(c)
@contract('Internal::PageInternal::PageInternal(VoxelKey)', 'C10 C20')
def _(c):
    eset(c, c.a(0), NOOFF, I(-1), I(-1))
    page_rest(c)
@contract('Internal::Hierarchy::Hierarchy()', 'C20')
def _(c):
    start(c, I(-1), I(-1), TRUE)
@contract('Internal::Hierarchy::Hierarchy(long, int)', 'C16')
def _(c):
    start(c, c.a(0), c.a(1), FALSE)
@contract('Internal::Hierarchy::PageExists(VoxelKey)', 'C16 C20')
def _(c):
    c.ret(c.map_has(c.get(SEEN), c.a(0)))
@contract('Internal::Hierarchy::NodeExists(VoxelKey)', 'C16 C20')
def _(c):
    c.ret(c.map_has(c.get(LOADED), c.a(0)))
hk = fresh('hk', 'I', 0, None)
@contract('Internal::Hierarchy::NearestLoadedPage(const std::vector<VoxelKey> &)', 'C16 C22')
def _(c):
    s, m = c.a(0), c.get(SEEN)
    h, i = c.ex.exists(s.n, hk, c.map_has(m, seq_get(s, hk)))
    c.ret(ite(h, c.map_get(m, seq_get(s, i)), I(0)))

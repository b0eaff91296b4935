"""What holds after every sequence of operations: invariants established by construction and kept by each operation."""
from ..spec import *
from .geometry import keyof, kvalid, childof, KEY
from .entry import *
from .hier import HI, SEEN, LOADED, root
from .writer import *
from .adding import *
from .adding import W as WR_

WCL = 'copc::Writer'
def sym_key(L, name):
    return L.var(['rec', KEY, KEY, []], name)
def keeps_key(L, h, k):
    """a known node carries its key and is listed in the page it names"""
    loaded, seen = L.get(LOADED, h), L.get(SEEN, h)
    ref = L.map_get(loaded, k)
    n = L.obj(ref, NODE)
    at = L.get('page_key', n)
    pref = L.map_get(seen, at)
    nodes = L.get('nodes', L.obj(pref, PI))
    return implies(L.map_has(loaded, k),
                   and_(ne(ref, I(0)), key_eq(L.get('key', n), k), L.map_has(seen, at), ne(pref, I(0)), L.map_has(nodes, k), eq(L.map_get(nodes, k), ref)))
def lists_own(L, h, p, k):
    """a known page carries its key, and what it lists under a key is the known node of that key, which names the page"""
    loaded, seen = L.get(LOADED, h), L.get(SEEN, h)
    pref = L.map_get(seen, p)
    pg = L.obj(pref, PI)
    nodes = L.get('nodes', pg)
    ref = L.map_get(nodes, k)
    n = L.obj(ref, NODE)
    return implies(L.map_has(seen, p),
                   and_(ne(pref, I(0)), key_eq(L.get('key', pg), p),
                        implies(L.map_has(nodes, k), and_(L.map_has(loaded, k), eq(L.map_get(loaded, k), ref), key_eq(L.get('page_key', n), p)))))
def has_root(L, h):
    return L.map_has(L.get(SEEN, h), root(L))
def writer_with(L):
    L.this = L.object(WCL, 'w')
    L.cls = WCL
    h = hier(L)
    key, page = L.cellv(sym_key(L, 'key'), 'key'), L.cellv(sym_key(L, 'page'), 'page')
    k, p = sym_key(L, 'sk_k'), sym_key(L, 'sk_p')
    return h, key, page, k, p
def assume_all(L, h, ks, ps):
    for k in ks:
        L.assume(keeps_key(L, h, k))
        for p in ps:
            L.assume(lists_own(L, h, p, k))
    L.assume(has_root(L, h))
def prove_all(L, h, k, p):
    L.prove('every known node is listed in the page it names', keeps_key(L, h, k))
    L.prove('every page lists only its own known nodes', lists_own(L, h, p, k))
    L.prove('the root page exists', has_root(L, h))

@lemma('a new hierarchy lists every node in exactly one page', 'C20')
def _(L):
    o = L.fid('Internal::Hierarchy::Hierarchy()')
    h = L.raw(HI)
    L.call(o, h, [])
    prove_all(L, h, sym_key(L, 'sk_k'), sym_key(L, 'sk_p'))

@lemma('adding a node keeps every node in exactly one page', 'C20')
def _(L):
    h, key, page, k, p = writer_with(L)
    for n, t in wired(L):
        L.assume(t)
    L.assume(not_(L.map_has(L.get(LOADED, h), L.read(key))))          # no node is added under its key twice
    assume_all(L, h, [k, L.read(key)], [p, L.read(page)])
    data = L.cellv(L.var(['rec', 'std::vector', 'std::vector', [['int', 8, True]]], 'data'), 'data')
    L.call(L.fid(WR_ + 'DoAddNode(const VoxelKey &, const std::vector<char> &, int, bool, const VoxelKey &)'), L.this,
           [key, data, L.cellv(L.var(['int', 32, True], 'count')), L.cellv(L.var(['bool'], 'compressed'), 'z'), page])
    prove_all(L, h, k, p)
    n = L.obj(L.map_get(L.get(LOADED, h), L.read(key)), NODE)
    L.prove('the node is known', L.map_has(L.get(LOADED, h), L.read(key)))
    L.prove('in the page asked for', key_eq(L.get('page_key', n), L.read(page)))

@lemma('moving a node keeps every node in exactly one page, the one last asked for', 'C20')
def _(L):
    h, key, page, k, p = writer_with(L)
    at = L.get('page_key', L.obj(L.map_get(L.get(LOADED, h), L.read(key)), NODE))
    kat = L.get('page_key', L.obj(L.map_get(L.get(LOADED, h), k), NODE))
    assume_all(L, h, [k, L.read(key)], [p, L.read(page), at, kat])
    L.call(L.fid(WR_ + 'ChangeNodePage(const VoxelKey &, const VoxelKey &)'), L.this, [key, page])
    prove_all(L, h, k, p)
    n = L.obj(L.map_get(L.get(LOADED, h), L.read(key)), NODE)
    L.prove('in the page asked for', key_eq(L.get('page_key', n), L.read(page)))

# ------------------------------------------------------------------ chunks
ck = fresh('ck', 'I', 0, None)
def total(L, chunks):
    """sum of the point counts of all chunks"""
    t = I(0)
    for p in chunks.parts:
        one = Seq([p])
        t = add(t, summ(one.n, ck, L.f(seq_get(one, ck), 'count'))) if not isinstance(p, Lit) else add(t, *[L.f(v, 'count') for v in p.vals])
    return t
def accounted(L):
    """the writer's point count is the sum over the chunks; the last one ends where the next one starts"""
    chunks = L.get('chunks_')
    s = L.read(out(L))
    return [('the point count is the sum over the chunks', eq(L.get('point_count_'), total(L, chunks))),
            ('the last chunk ends at the writing position', implies(lt(I(0), chunks.n), eq(L.f(seq_get(chunks, sub(chunks.n, I(1))), 'offset'), s.f['p'])))]
@lemma('every chunk written is accounted for', 'C21')
def _(L):
    L.this = L.object(WCLS, 'w')
    L.cls = WCLS
    for n, t in chunk_pre(L) + accounted(L):
        L.assume(t)
    chunks, start = L.get('chunks_'), L.read(out(L)).f['p']
    count = L.var(['int', 32, True], 'count')
    L.assume(and_(le(I(0), count), le(add(total(L, chunks), count), I((1 << 64) - 1))))
    data = L.var(['rec', 'std::vector', 'std::vector', [['int', 8, True]]], 'data')
    L.call(L.fid(BW + '::WriteChunk(const std::vector<char> &, int, bool, u64 *, int *)'), L.this,
           [L.cellv(data, 'data'), L.cellv(count), L.cellv(TRUE), L.cellv(I(0)), L.cellv(I(0))])
    for n, t in accounted(L):
        L.prove(n, t)
    new = L.get('chunks_')
    L.prove('one more chunk', eq(new.n, add(chunks.n, I(1))))
    s = L.read(out(L))
    L.prove('of the bytes given', eq(s.f['p'], add(start, data.n)))

def fills_reserved(L, write):
    o = out(L)
    before = L.read(o)
    at = offset_of(L)
    write()
    s = L.read(o)
    L.prove('header and records end where the announced point data offset says', eq(s.f['p'], at))
    L.prove('the stream keeps its length', eq(s.f['data'].n, before.f['data'].n))
    i = L.var(['int', 64, False], 'sk_i')
    L.assume(and_(le(at, i), lt(i, before.f['data'].n)))
    L.prove('the point data stays as it is', eq(seq_get(s.f['data'], i), seq_get(before.f['data'], i)))
@lemma('the header and records of a COPC file fill exactly the space reserved for them', 'C21')
def _(L):
    L.this = L.object(WCLS, 'w')
    L.cls = WCLS
    for n, t in room(L) + copc_ready(L, conf(L, cls=CWCLS)):
        L.assume(t)
    fills_reserved(L, lambda: L.call(L.fid(WI + '::WriteHeader()'), L.this, []))
@lemma('the header and records of a LAZ file fill exactly the space reserved for them', 'C21')
def _(L):
    L.this = L.object(BCLS, 'w')
    L.cls = BCLS
    for n, t in room(L):
        L.assume(t)
    def write():
        las_header(L, FALSE)
        laz_and_eb(L)
    fills_reserved(L, write)

# ------------------------------------------------------------------ what is written is what is read
from .paging import write_page, there, node_at, sub_at, copc_config
from .reading import page_entries, rstream
RCL = 'copc::Reader'
@lemma('a page read back lists the nodes and sub-pages that were written, in order', 'C22 C26')
def _(L):
    w, r = L.object(WCLS, 'w'), L.object(RCL, 'r')
    L.this, L.cls = w, WCLS
    page = L.object(PI, 'page')
    for n, t in ok_out(L) + copc_config(L) + there(L, page):
        L.assume(t)
    wrote = L.get('out_stream_')
    write_page(L, page)
    a, b = L.listing(L.get('nodes', page)).n, L.listing(L.get('sub_pages', page)).n
    off, size = L.get('offset', page), L.get('byte_size', page)
    L.this, L.cls = r, RCL
    L.assume(eq(L.get('in_stream_'), wrote))
    L.assume(not_(L.read(rstream(L)).f['fail']))
    k = L.var(['int', 64, False], 'sk_k')
    pk = fresh('pk', 'I', 0, None)
    L.assume(L.ex.forall(a, pk, evalid(L, node_at(L, page, pk))))
    L.assume(L.ex.forall(b, pk, evalid(L, sub_at(L, page, pk))))
    L.assume(kvalid(keyof(L, L.flv('key', page))))
    before = L.st.pc
    got = page_entries(L, page)
    after, L.st.pc = L.st.pc, before
    L.prove('it can be read', after)
    L.st.pc = after
    n, e = got
    L.prove('as many entries as were written', eq(n, add(a, b)))
    ent = L.cellv(e(k), 'entry')
    nd = node_at(L, page, k)
    L.st.pc = and_(L.st.pc, lt(k, n))
    for f in ('offset', 'byte_size', 'point_count'):
        L.prove('node: ' + f, implies(lt(k, a), eq(L.get(f, ent), L.get(f, nd))))
    L.prove('node: key', implies(lt(k, a), key_eq(L.get('key', ent), L.get('key', nd))))
    sp = sub_at(L, page, sub(k, a))
    for f in ('offset', 'byte_size', 'point_count'):
        L.prove('sub-page: ' + f, implies(le(a, k), eq(L.get(f, ent), L.get(f, sp))))
    L.prove('sub-page: key', implies(le(a, k), key_eq(L.get('key', ent), L.get('key', sp))))

@lemma('compressed data written as a node is read back byte for byte', 'C24 C26')
def _(L):
    from .finding import raw_bytes
    w, r = L.object(WCLS, 'w'), L.object(RCL, 'r')
    L.this, L.cls = w, WCLS
    for n, t in chunk_pre(L):
        L.assume(t)
    wrote = L.get('out_stream_')
    data = L.var(['rec', 'std::vector', 'std::vector', [['int', 8, True]]], 'data')
    e = L.cellv(L.call(L.fid(WI + '::WriteNode(const std::vector<char> &, int, bool)'), w,
                       [L.cellv(data, 'data'), L.cellv(L.var(['int', 32, True], 'count')), L.cellv(TRUE)]), 'entry')
    L.prove('the entry has the size of the data', eq(L.get('byte_size', e), data.n))
    L.this, L.cls = r, RCL
    L.assume(eq(L.get('in_stream_'), wrote))
    back = raw_bytes(L, e)
    L.prove('as many bytes', eq(back.n, data.n))
    i = L.var(['int', 32, False], 'sk_i')
    L.assume(lt(i, data.n))
    L.prove('the same bytes', eq(seq_get(back, i), seq_get(data, i)))

# ------------------------------------------------------------------ the pages a reader has read
@lemma('reading a page keeps every known node in exactly one page', 'C16')
def _(L):
    from .finding import enter, rhier
    L.this, L.cls = L.object(RCL, 'r'), RCL
    h = rhier(L)
    at = sym_key(L, 'at')
    k, p = sym_key(L, 'sk_k'), sym_key(L, 'sk_p')
    loaded, seen = L.get(LOADED, h), L.get(SEEN, h)
    L.assume(L.map_has(seen, at))
    page = L.obj(L.map_get(seen, at), PI)
    kat = L.get('page_key', L.obj(L.map_get(loaded, k), NODE))
    assume_all(L, h, [k], [p, at, kat])
    L.assume(not_(L.get('loaded', page)))
    n = L.var(['int', 32, False], 'n')
    e = lambda k: L.T.sym(L.ex, ['rec', 'copc::Entry', 'copc::Entry', []], 'entry', (k,))
    j = fresh('ej', 'I', 0, None)
    key = L.f(e(j), 'key')
    # no key occurs twice in a well-formed hierarchy
    L.assume(L.ex.forall(n, j, and_(not_(L.map_has(loaded, key)), not_(L.map_has(seen, key)))))
    enter(L, page, n, e)
    prove_all(L, h, k, p)
    i = L.var(['int', 32, False], 'sk_i')
    L.assume(lt(i, n))
    ent = e(i)
    L.prove('every entry is known', or_(L.map_has(L.get(LOADED, h), L.f(ent, 'key')), L.map_has(L.get(SEEN, h), L.f(ent, 'key'))))

# ------------------------------------------------------------------ attaching the pages to each other
@lemma('closing lists every page but the root under the closest page above it, and nowhere else', 'C22')
def _(L):
    from .paging import attach, whier, rkey
    L.this, L.cls = L.object(WCLS, 'w'), WCLS
    h = whier(L)
    seen = L.get(SEEN, h)
    en = L.listing(seen)
    i = L.var(['int', 32, False], 'sk_i')
    L.assume(lt(i, en.n))
    q = L.map_get(seen, en.key(i))
    above = L.obj(L.ex.fresh('sk_above', 'I', 1, 1 << 30), PI)
    L.assume(not_(L.map_has(L.get('sub_pages', above), q)))
    # every page is known under one key
    j = fresh('ej', 'I', 0, None)
    L.assume(L.ex.forall(en.n, j, implies(eq(L.map_get(seen, en.key(j)), q), eq(j, i))))
    closest = lambda c, m, k: (FALSE, uf('closest', [k[a] for a in 'dxyz'], 'I', 1, 1 << 30))
    top = closest(L, seen, rkey(en.key(i)))[1]
    attach(L, h, closest)
    has = L.map_has(L.get('sub_pages', above), q)
    L.prove('listed where it belongs, and only there', iff(has, and_(not_(key_eq(en.key(i), root(L))), eq(above[1], top))))

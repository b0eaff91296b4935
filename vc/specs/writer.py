"""Writing files: chunks, chunk table, header area, hierarchy (C20, C21, C22)."""
from ..spec import *
from .point import fmt_ok, base_size
from .header import HCLS, HFIELDS
from .utils import base_dims
from .streams import *
from .codec import frame, hshort
from .entry import mkentry, invalid, NOOFF, ekey, pack_of, entry_bytes, FIELDS
from .config import hobj, ebobj, iobj, xobj, copy_obj, EB
from ..lazmodel import chunk_table
from .lazenc import *

BW, WI = 'laz::BaseWriter', 'Internal::WriterInternal'
LCLS, CWCLS, BCLS, WCLS = 'copc::las::LazConfig', 'copc::CopcConfigWriter', 'copc::laz::BaseWriter', 'copc::Internal::WriterInternal'
HDR, VH, EH = 375, 54, 60

def conf(c, lv=None, cls=LCLS):
    return c.obj(c.get('config_', lv), cls)
def out(c, lv=None):
    """the output stream"""
    v = c.get('out_stream_', lv)
    return v.lv if isinstance(v, Ptr) else ('hf', v, '%stream')
def dyn_is(c, ref, cls):
    return eq(c.ex.heap_read(c.st, '%dyn', ref), I(c.T.cid(cls)))
def eb_vlr_size(c, cf):
    """bytes of the extra-byte record of the configuration, header not counted"""
    return mul(I(192), c.get('items', ebobj(c, cf)).n)
def laz_offset(c, cf):
    """LAS header, extra-byte VLR if there are descriptors, LAZ VLR"""
    n = c.get('items', ebobj(c, cf)).n
    f, rl = c.get('point_format_id_', hobj(c, cf)), c.get('point_record_length_', hobj(c, cf))
    eb = sub(rl, base_size(f))
    items = add(I(1), ite(le(I(7), f), I(1), I(0)), ite(lt(I(0), eb), I(1), I(0)))
    return add(I(HDR), ite(lt(I(0), n), add(I(VH), eb_vlr_size(c, cf)), I(0)), I(VH + 34), mul(I(6), items))
def copc_offset(c, cf):
    """the above, COPC info and one or two records of extents"""
    n = c.get('items', ebobj(c, cf)).n
    f = c.get('point_format_id_', hobj(c, cf))
    x = add(I(VH), mul(I(16), add(base_dims(f), n)))
    return add(laz_offset(c, cf), I(VH + 160), mul(x, ite(c.get('has_extended_stats_', xobj(c, cf)), I(2), I(1))))
MOST = 341
def supported(c, cf, most=MOST):
    return [('the configuration has a supported format', fmt_ok(c.get('point_format_id_', hobj(c, cf)))),
            ('record length at least that of the format', le(base_size(c.get('point_format_id_', hobj(c, cf))), c.get('point_record_length_', hobj(c, cf)))),
            ('at most %d extra-byte items' % most, le(c.get('items', ebobj(c, cf)).n, I(most)))]

@lemma('the 16-bit lengths of the records of an open writer are those of their payloads', 'C15 C21 C26')
def _(L):
    f, n = L.var(['int', 8, True], 'f'), L.var(['int', 32, True], 'n')
    L.assume(fmt_ok(f))
    L.assume(and_(le(I(0), n), le(n, I(MOST))))
    for name, size in (('extra bytes', mul(I(192), n)), ('extents', mul(I(16), add(base_dims(f), n))), ('laz', add(I(34), mul(I(6), I(4))))):
        L.prove(name, eq(wrap(size, 16, False), size))

@contract(BW + '::OffsetToPointData() const', 'C21', pre=lambda c: supported(c, conf(c)))
def _(c):
    c.ret(laz_offset(c, conf(c)))
@contract(WI + '::OffsetToPointData() const', 'C21', pre=lambda c: supported(c, conf(c, cls=CWCLS)) + copc_config(c))
def _(c):
    c.ret(copc_offset(c, conf(c, cls=CWCLS)))
def copc_config(c):
    return [('the configuration is a COPC one', dyn_is(c, c.get('config_'), CWCLS))] if is_copc(c) else []
@contract(WI + '::GetConfig() const', 'C21', pre=copc_config)
def _(c):
    c.ret(c.get('config_'))
def is_copc(c):
    if c.clsof(c.this) == WCLS:
        return True
    if c.this[0] == 'obj':
        d = c.ex.heap_read(c.st, '%dyn', c.this[1])
        if d.op != 'int':
            raise Limit('writer of unknown class')
        return d.a == c.T.cid(WCLS)
    return False
def offset_of(c):
    return copc_offset(c, conf(c, cls=CWCLS)) if is_copc(c) else laz_offset(c, conf(c))
DYNS = (BCLS, WCLS)
sup = lambda c: supported(c, conf(c)) + copc_config(c)
@contract(BW + '::FirstChunkOffset() const', 'C21', dyns=DYNS, pre=sup)
def _(c):
    c.ret(add(offset_of(c), I(8)))
def ok_out(c):
    return [('the stream has not failed', not_(c.read(out(c)).f['fail']))]
def room(c):
    return sup(c) + ok_out(c) + [('room was reserved for header and records', le(add(offset_of(c), I(8)), c.read(out(c)).f['data'].n))]
def las_header(c, ext):
    cf = conf(c)
    h = c.call(c.fid('las::LasHeader::ToLazPerf(u32, u64, u64, u32, bool, bool) const'), hobj(c, cf),
               [wrap(offset_of(c), 32, False), c.get('point_count_'), c.get('evlr_offset_'), c.get('evlr_count_'),
                lt(I(0), c.get('items', ebobj(c, cf)).n), ext])
    if c.st.pc is FALSE:
        return
    seek(c, out(c), 0)
    over(c, out(c), encode(c, L14, of(c, c.ex.cell(c.st, h, 'spec'))))
@contract(BW + '::WriteLasHeader(bool)', 'C21', dyns=DYNS, pre=room)
def _(c):
    las_header(c, c.a(0))
def head(c, kind, h):
    over(c, out(c), encode(c, HD if kind[0] == 'v' else EHD, of(c, c.ex.cell(c.st, h, 'spec'))))
def record_(c, user, rec, length, desc, payload, kind='vlr_header'):
    """header and payload of one record"""
    head(c, kind, head_of(c, kind, user, rec, length, desc))
    over(c, out(c), payload)
def laz_and_eb(c):
    cf = conf(c)
    items = c.get('items', ebobj(c, cf))
    f, rl = c.get('point_format_id_', hobj(c, cf)), c.get('point_record_length_', hobj(c, cf))
    eb = sub(rl, base_size(f))
    c.when(lt(I(0), items.n), lambda: record_(c, b'LASF_Spec', 4, mul(I(192), items.n), b'', fields_bytes(c, items)))
    record_(c, b'laszip encoded', 22204, laz_size(f, eb), b'lazperf variant', laz_bytes(c, f, eb, I((1 << 32) - 1)))
def inside(c):
    s = c.read(out(c))
    return sup(c) + ok_out(c) + [('the writing position lies in the stream', le(s.f['p'], s.f['data'].n))]
@contract(BW + '::WriteLazAndEbVlrs()', 'C21', dyns=DYNS, pre=inside)
def _(c):
    laz_and_eb(c)
@contract(BW + '::WriteHeader()', 'C21', dyns=(BCLS,), pre=room)
def _(c):
    las_header(c, FALSE)
    laz_and_eb(c)
from .extents import xinv, vals, eobj, item, items_bytes, slot
def copc_ready(c, cf):
    """the COPC records can be encoded"""
    x = xobj(c, cf)
    return [('extents with one slot per dimension', and_(xinv(c, x), eq(c.get('point_format_id_', x), c.get('point_format_id_', hobj(c, cf))),
                eq(c.get('extents_', x).n, add(base_dims(c.get('point_format_id_', hobj(c, cf))), c.get('items', ebobj(c, cf)).n)))),
            ('the GPS time extent is there', ne(slot(c, 13, x), I(0)))]
def upside_down(c, h):
    """bounds that are not bounds"""
    return or_(*[dcmp('lt', c.get('max.' + a, h), c.get('min.' + a, h)) for a in 'xyz'])
def extents_records(c, x, bounds, i):
    """slot values i, i+1 (minimum and maximum, or mean and variance)"""
    v = c.get('extents_', x)
    return items_bytes(c, tab(v.n, lambda k: item(c, *vals(c, eobj(c, seq_get(v, k)))[i:i + 2])))
def copc_head(c):
    cf = conf(c, cls=CWCLS)
    x, h = xobj(c, cf), hobj(c, cf)
    ext = c.get('has_extended_stats_', x)
    las_header(c, ext)
    info = c.call(c.fid('CopcInfo::ToLazPerf(const CopcExtent &) const'), iobj(c, cf), [eobj(c, slot(c, 13, x))])
    record_(c, b'copc', 1, I(160), b'COPC info VLR', lit(encode(c, INFO, of(c, c.ex.cell(c.st, info, 'spec')))))
    if c.throws(upside_down(c, h)):
        return
    n = mul(I(16), c.get('extents_', x).n)
    record_(c, b'copc', 10000, n, b'COPC extents', extents_records(c, x, h, 0))
    c.when(ext, lambda: record_(c, b'rock_robotic', 10001, n, b'COPC extended stats', extents_records(c, x, h, 2)))
    laz_and_eb(c)
@contract(WI + '::WriteHeader()', 'C21', pre=lambda c: room(c) + copc_ready(c, conf(c, cls=CWCLS)))
def _(c):
    copc_head(c)
CH = 'lazperf::chunk'
def relative(c, chunks, first):
    """every chunk's end relative to the end of the previous one"""
    def one(k):
        prev = ite(lt(I(0), k), c.f(seq_get(chunks, sub(k, I(1))), 'offset'), first)
        e = seq_get(chunks, k)
        return c.rec(CH, count=c.f(e, 'count'), offset=wrap(sub(c.f(e, 'offset'), prev), 64, False))
    return tab(chunks.n, one)
def write_table(c):
    chunks = relative(c, c.get('chunks_'), add(offset_of(c), I(8)))
    o = out(c)
    seek_end(c, o)
    at = c.read(o).f['p']
    c.set('chunks_', chunks)
    over(c, o, u(I(0), 4) + u(chunks.n, 4))
    over(c, o, chunk_table(c.ex.seqid(chunks), TRUE))
    seek(c, o, offset_of(c))
    over(c, o, u(at, 8))
@contract(BW + '::WriteChunkTable()', 'C21', dyns=DYNS, pre=room)
def _(c):
    write_table(c)
def write_wkt(c):
    w = c.get('wkt_', conf(c))
    def go():
        c.set('evlr_count_', wrap(add(c.get('evlr_count_'), I(1)), 32, False))
        record_(c, b'LASF_Projection', 2112, w.n, b'', smap(w, uchar), 'evlr_header')
    c.when(lt(I(0), w.n), go)
@contract(BW + '::WriteWKT()', 'C21', dyns=DYNS, pre=inside)
def _(c):
    write_wkt(c)
def closing(c):
    return [(n, implies(c.get('open_'), t)) for n, t in room(c)]
@contract(BW + '::Close()', 'C21', dyns=(BCLS,), pre=closing)
def _(c):
    def go():
        write_table(c)
        seek_end(c, out(c))
        c.set('evlr_offset_', c.read(out(c)).f['p'])
        write_wkt(c)
        las_header(c, FALSE)
        laz_and_eb(c)
        c.set('open_', FALSE)
    c.when(c.get('open_'), go)
MAX31 = (1 << 31) - 1
def at_end(c):
    s = c.read(out(c))
    return ok_out(c) + [('the writing position is the end of the stream', eq(s.f['p'], s.f['data'].n))]
def isptr(v):
    return isinstance(v, Ptr)
def write_chunk(c, data, count, compressed, offset=None, size=None):
    """returns the number of points of the chunk, None when it throws; offset, size: lvalues or None"""
    o = out(c)
    start = c.read(o).f['p']
    if c.throws(eq(start, I(0))):
        return None
    if offset is not None:
        c.write(offset, start)
    h = hobj(c, conf(c))
    box = {}
    def raw():
        over(c, o, smap(data, uchar))
        box[0] = count
    def encode_():
        f = c.get('point_format_id_', h)
        r = frame(c, data, f, sub(c.get('point_record_length_', h), base_size(f)))
        if r:
            over(c, o, r[0])
            box[1] = r[1]
    c.when(compressed, raw, encode_)
    if c.st.pc is FALSE:
        return None
    n = box[0] if 1 not in box else box[1] if 0 not in box else ite(compressed, box[0], box[1])
    c.set('point_count_', wrap(add(c.get('point_count_'), n), 64, False))
    end = c.read(o).f['p']
    c.set('chunks_', cat(c.get('chunks_'), lit([c.rec(CH, count=wrap(n, 64, False), offset=end)])))
    if c.throws(lt(I(MAX31), sub(end, start))):
        return None
    if size is not None:
        c.write(size, sub(end, start))
    return n
def pointed(v):
    return v.lv if isptr(v) else None
chunk_pre = lambda c: sup(c) + at_end(c)
@contract(BW + '::WriteChunk(const std::vector<char> &, int, bool, u64 *, int *)', 'C21 C24', dyns=[d + n for d in DYNS for n in ('', '|null')], pre=chunk_pre)
def _(c):
    c.ret(write_chunk(c, c.a(0), c.a(1), c.a(2), pointed(c.a(3)), pointed(c.a(4))))
ENTRY = 'copc::Entry'
@contract(WI + '::WriteNode(const std::vector<char> &, int, bool)', 'C20 C21', pre=chunk_pre)
def _(c):
    e = c.ex.cell(c.st, mkentry(c, invalid(c), NOOFF, I(-1), I(-1)), 'spec')
    n = write_chunk(c, c.a(0), c.a(1), c.a(2), c.flv('offset', e), c.flv('byte_size', e))
    if n is not None:
        c.set('point_count', n, e)
        c.ret(c.read(e))

# ------------------------------------------------------------------ construction
def zeros(n):
    return tab(n, lambda i: I(0))
def too_many(c, config):
    """the extra-byte record is longer than the 16 bits of a VLR's length can tell"""
    return c.throws(lt(I(65535), eb_vlr_size(c, c.obj(config, LCLS))))
def begin(c, stream, config):
    """an open writer without chunks; refused if its extra-byte record cannot be written"""
    if too_many(c, config):
        return
    for f in ('point_count_', 'evlr_offset_', 'evlr_count_'):
        c.set(f, I(0))
    c.set('chunks_', Seq())
    c.set('open_', TRUE)
    c.set('config_', config)
    c.set('out_stream_', stream[1] if stream[0] == 'hf' else Ptr(stream))
def reserve(c):
    """space for the header and records, at the end of the stream"""
    over(c, out(c), zeros(add(offset_of(c), I(8))))
@contract(BW + '::BaseWriter(ostream &, std::shared_ptr<las::LazConfig>)', 'C21')
def _(c):
    begin(c, c.lv(0), c.a(1))
def wdefaults(c):
    pass
@contract(WI + '::WriterInternal(ostream &, const std::shared_ptr<CopcConfigWriter> &, std::shared_ptr<Internal::Hierarchy>)', 'C21',
          pre=lambda c: supported(c, c.obj(c.a(1), CWCLS), 65535) + [('the configuration is a COPC one', dyn_is(c, c.a(1), CWCLS))] + appending(c, c.lv(0)))
def _(c):
    begin(c, c.lv(0), c.a(1))
    if c.st.pc is FALSE:
        return
    c.set('hierarchy_', c.a(2))
    reserve(c)
LW = 'laz::LazWriter'
LWCLS = 'copc::las::LazConfigWriter'
@contract(LW + '::LazWriter(ostream &, const las::LazConfigWriter &)', 'C21 C14',
          pre=lambda c: supported(c, c.lv(1), 65535) + appending(c, c.lv(0)))
def _(c):
    cf = c.lv(1)
    mine = c.new(LWCLS, {'header_': c.new(HCLS, {f: c.get(f, hobj(c, cf)) for f in HFIELDS}), 'wkt_': c.get('wkt_', cf),
                         'eb_vlr_': copy_obj(c, EB, ebobj(c, cf))})
    begin(c, c.lv(0), mine)
    if c.st.pc is FALSE:
        return
    reserve(c)
@contract(LW + '::LazConfig()', 'C14')
def _(c):
    v = c.get('config_')
    c.ret(ite(and_(ne(v, I(0)), dyn_is(c, v, LWCLS)), v, I(0)))
@contract(LW + '::PointCount()', 'C21')
def _(c):
    c.ret(c.get('point_count_'))
@contract(LW + '::ChunkCount()', 'C21')
def _(c):
    c.ret(c.get('chunks_').n)
@contract(LW + '::WritePointsCompressed(const std::vector<char> &, int)', 'C20 C21', pre=chunk_pre)
def _(c):
    if c.throws(le(c.a(1), I(0))):
        return
    write_chunk(c, c.a(0), c.a(1), TRUE)
from .points import pinv
PACKH = 'las::Points::Pack(const las::LasHeader &) const'
def wpinv(c, i):
    return [(n, t) for n, t in pinv(c, c.lv(i))]
def alien(c, points, h):
    """points of another format or size than the file"""
    return or_(ne(c.get('point_format_id_', points), c.get('point_format_id_', h)),
               ne(c.get('point_record_length_', points), c.get('point_record_length_', h)))
@contract(LW + '::WritePoints(const las::Points &)', 'C20 C21', pre=lambda c: chunk_pre(c) + wpinv(c, 0))
def _(c):
    p, h = c.lv(0), hobj(c, conf(c))
    def go():
        if c.throws(alien(c, p, h)):
            return
        data = c.call(c.fid(PACKH), p, [h])
        if c.st.pc is not FALSE:
            write_chunk(c, data, I(0), FALSE)
    c.when(ne(c.get('points_', p).n, I(0)), go)

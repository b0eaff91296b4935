"""Reading a file back: the headers of its records, the known records, pages, chunks and points."""
from ..spec import *
from ..loops import close
from .streams import *
from .header import field_text, HCLS, H14
from .lazenc import HD, EHD, INFO
from .lazdec import decode, size_of, fill, eb_items, text
from .config import ICLS, IF
from .extents import XCLS, ECLS, F4, bad, exists_slot, nslots, parse_items
from .point import fmt_ok, base_size
from .entry import evalid, pvalid, parse_entry, PI, E as ENTRY, NODE
from .codec import unframe
from .points import unpack_all, hv3
from .config import EB, ebobj, of_config, copc_parts
from .hier import HI, start
from ..lazmodel import ReaderRec

VLR = 'copc::las::VlrHeader'
BR = 'BaseReader'
hk = fresh('hk', 'I', 0, None)

def vlrs_type(c):
    return c.T.ftype(c.key('copc::BaseReader', 'vlrs_'))
def ukeys(c):
    return c.key(VLR, 'user_id'), c.key(VLR, 'record_id')
def fetch(c, m, user, rid):
    """offset of the first record (in the order of offsets) with these ids, 0 when there is none"""
    en = c.listing(m)
    uk, rk = ukeys(c)
    def hit(k):
        h = c.map_get(m, en.key(k))
        return and_(c.T.std.seq_eq(c.ex, h.f[uk], user), eq(h.f[rk], rid))
    some, i = c.ex.exists(en.n, hk, hit(hk))
    return ite(some, en.key(i), I(0))
@contract(BR + '::FetchVlr(const std::map<u64, las::VlrHeader> &, const string &, u16)', 'C15')
def _(c):
    c.ret(fetch(c, c.read(c.lv(0)), c.read(c.lv(1)), c.a(2)))

# ------------------------------------------------------------------ the list of record headers
def rstream(c):
    return ('hf', c.get('in_stream_'), '%stream')
def rheader(c):
    """the LAS header lazperf decoded when the file was opened"""
    return c.read(('hf', c.get('reader_'), '%rhdr'))
def hget(c, h, name):
    return h.f[c.key(H14, name)]
def header_run(c, data, start, lay):
    """positions of consecutive headers with their payloads: pos(k)"""
    n = size_of(lay)
    w = dict(lay)['data_length']
    p, k = fresh('p', 'I', None, None), fresh('k', 'I', 0, None)
    size = wrap(get_int(lambda i: seq_get(data, add(p, I(i))), 20, w, False), 64, True)
    r = close(c.ex, add(p, I(n), size), p, start, k)
    return lambda i: subst(r, {k: i})
def header_at(c, data, pos, lay, flag):
    r = c.zero(VLR)
    fill(c, r, decode(c, lay, lambda i: seq_get(data, add(pos, I(i)))))
    c.set('evlr_flag', flag, r)
    return c.read(r)
def runs(c, h=None):
    """((first position, number, layout, is extended), ...)"""
    h = h or rheader(c)
    return ((hget(c, h, 'header_size'), hget(c, h, 'vlr_count'), HD, FALSE), (wrap(hget(c, h, 'evlr_offset'), 64, True), hget(c, h, 'evlr_count'), EHD, TRUE))
def alive(c):
    return [('the stream has not failed', not_(c.read(rstream(c)).f['fail']))]
def in_file(c, h=None):
    """every record header lies in the file"""
    data = c.read(rstream(c)).f['data']
    out = []
    for start, n, lay, flag in runs(c, h):
        pos = header_run(c, data, start, lay)
        out.append(('the record headers lie in the file', c.ex.forall(n, hk, and_(
            le(I(0), pos(hk)), le(add(pos(hk), I(size_of(lay))), data.n), le(I(0), pos(add(hk, I(1))))))))
        out.append(('the lists start at a position in a file', le(I(0), start)))
        out.append(('not more records than an int counts', le(n, I((1 << 31) - 1))))
    return out
def listing(c, h=None):
    """(every header found by walking the two lists, at its offset; the first one at an offset counts; where the walk ends)"""
    lv = rstream(c)
    data = c.read(lv).f['data']
    m = c.T.zero(c.ex, vlrs_type(c))
    for start, n, lay, flag in runs(c, h):
        pos = header_run(c, data, start, lay)
        m = m.up('eachins', TRUE, wrap(pos(hk), 64, False), header_at(c, data, pos(hk), lay, flag), hk, n)
        end = pos(n)
    return m, end
@contract(BR + '::ReadVlrHeaders()', 'C15', pre=lambda c: alive(c) + in_file(c))
def _(c):
    m, end = listing(c)
    goto(c, end)
    c.ret(m)

# ------------------------------------------------------------------ the known records
def user(s):
    return bytes_lit(s)
def found(c, m, who, rid):
    """(offset, header, position and length of the payload) of a record looked up by its ids"""
    off = fetch(c, m, user(who), rid)
    h = c.map_get(m, off)
    size = wrap(h.f[c.key(VLR, 'data_length')], 32, True)
    at = wrap(add(off, ite(h.f[c.key(VLR, 'evlr_flag')], I(60), I(54))), 64, True)
    return off, at, size
def payload_ok(c, m, who, rid, need=lambda size: size, what='the payload lies in the file'):
    off, at, size = found(c, m, who, rid)
    s = c.read(rstream(c))
    return [(what, implies(ne(off, I(0)), and_(le(I(0), size), le(I(0), at), le(add(at, need(size)), s.f['data'].n))))]
def goto(c, pos):
    lv = rstream(c)
    c.write(lv, c.read(lv).set('g', pos))
def eb_need(size):
    return mul(I(192), fdiv_(size, 192))
def from_vlr(c, m, who, rid, cls, f):
    """the payload of a record, as it lies in the file; empty when there is no such record"""
    off, at, size = found(c, m, who, rid)
    r = c.zero('lazperf::' + cls)
    def there():
        goto(c, at)
        f(r, take(c, rstream(c), SIZE[cls](size)), size)
    c.when(ne(off, I(0)), there)
    return c.read(r)
SIZE = {'wkt_vlr': lambda s: s, 'eb_vlr': eb_need}
def wkt_of(c, m):
    return from_vlr(c, m, b'LASF_Projection', I(2112), 'wkt_vlr', lambda r, at, n: c.set('wkt', tab(n, lambda i: wrap(at(i), 8, True)), r))
def eb_of(c, m):
    return from_vlr(c, m, b'LASF_Spec', I(4), 'eb_vlr', lambda r, at, n: c.set('items', eb_items(c, at, fdiv_(n, 192)), r))
def wkt_ok(c, m):
    return payload_ok(c, m, b'LASF_Projection', I(2112))
def eb_ok(c, m):
    return payload_ok(c, m, b'LASF_Spec', I(4), eb_need)
@contract(BR + '::ReadWktVlr(std::map<u64, las::VlrHeader> &)', 'C15',
          pre=lambda c: alive(c) + wkt_ok(c, c.read(c.lv(0))))
def _(c):
    c.ret(wkt_of(c, c.read(c.lv(0))))
@contract(BR + '::ReadExtraBytesVlr(std::map<u64, las::VlrHeader> &)', 'C15',
          pre=lambda c: alive(c) + eb_ok(c, c.read(c.lv(0))))
def _(c):
    c.ret(eb_of(c, c.read(c.lv(0))))

INFO_AT, X16 = 375, lambda size: mul(I(16), fdiv_(size, 16))
@contract('Reader::ReadCopcInfoVlr(std::map<u64, las::VlrHeader> &)', 'C15', pre=lambda c: alive(c) + info_there(c, c.read(c.lv(0))))
def _(c):
    r = copc_info(c, c.read(c.lv(0)))
    if r is not None:
        c.ret(r)
def info_ok(c):
    return [('160 bytes of COPC info lie in the file', le(I(INFO_AT + 54 + size_of(INFO)), c.read(rstream(c)).f['data'].n))]
def info_there(c, m):
    return [(n, implies(eq(fetch(c, m, user(b'copc'), I(1)), I(INFO_AT)), t)) for n, t in info_ok(c)]
def copc_info(c, m):
    """the COPC info record, which must be the first record of the file"""
    if c.throws(ne(fetch(c, m, user(b'copc'), I(1)), I(INFO_AT))):
        return None
    goto(c, I(INFO_AT + 54))
    d = dict(decode(c, INFO, take(c, rstream(c), size_of(INFO))))
    return c.rec(ICLS, **{f: d[f] for f in IF})
def extents_ok(c, m):
    return payload_ok(c, m, b'copc', I(10000), X16) + payload_ok(c, m, b'rock_robotic', I(10001), X16)
def copc_extents(c, m, fmt, eb):
    """the extents record with the statistics of the extended one, or default extents when there is none"""
    r = c.zero(XCLS)
    off, at, size = found(c, m, b'copc', I(10000))
    xoff, xat, xsize = found(c, m, b'rock_robotic', I(10001))
    some, ext = ne(off, I(0)), ne(xoff, I(0))
    data = c.read(rstream(c)).f['data']
    n, xn = fdiv_(size, 16), fdiv_(xsize, 16)
    v = lambda k: seq_get(parse_items(c, lambda i: seq_get(data, add(at, i)), n), k)
    w = lambda k: seq_get(parse_items(c, lambda i: seq_get(data, add(xat, i)), xn), k)
    g = lambda it, f: c.f(it, f)
    def there():
        goto(c, add(at, mul(I(16), n)))
        if c.throws(not_(fmt_ok(fmt))):
            return
        if c.throws(ne(n, nslots(fmt, eb))):
            return
        if c.throws(exists_slot(c, n, lambda k: bad([g(v(k), 'minimum'), g(v(k), 'maximum'), D(0.0), D(1.0)]))):
            return
        def more():
            goto(c, add(xat, mul(I(16), xn)))
            c.throws(ne(xn, n))
        c.when(ext, more)
        # a negative variance is refused as soon as the extents are copied
        q = lambda k: [g(v(k), 'minimum'), g(v(k), 'maximum'), ite(ext, g(w(k), 'minimum'), D(0.0)), ite(ext, g(w(k), 'maximum'), D(1.0))]
        c.throws(exists_slot(c, n, lambda k: bad(q(k))))
    c.when(some, there)
    if c.throws(not_(fmt_ok(fmt))):
        return None
    c.set('point_format_id_', fmt, r)
    c.set('has_extended_stats_', and_(some, ext), r)
    def one(k):
        y = and_(some, ext)
        x = ite(some, g(v(k), 'minimum'), D(0.0)), ite(some, g(v(k), 'maximum'), D(0.0)), ite(y, g(w(k), 'minimum'), D(0.0)), ite(y, g(w(k), 'maximum'), D(1.0))
        return c.new(ECLS, dict(zip(F4, x)))
    c.set('extents_', c.each(nslots(fmt, eb), one), r)
    return c.read(r)
@contract('Reader::ReadCopcExtentsVlr(std::map<u64, las::VlrHeader> &, const lazperf::eb_vlr &) const', 'C15 C12',
          pre=lambda c: alive(c) + extents_ok(c, c.read(c.lv(0))))
def _(c):
    r = copc_extents(c, c.read(c.lv(0)), wrap(hget(c, rheader(c), 'point_format_id'), 8, True), wrap(c.get('items', c.lv(1)).n, 16, False))
    if r is not None:
        c.ret(r)

# ------------------------------------------------------------------ opening a file
GEN = 'lazperf::reader::generic_file'
def opened(c):
    """(identity of the file contents, the LAS header lazperf decodes from them)"""
    sid = c.ex.seqid(c.read(rstream(c)).f['data'])
    return sid, c.T.sym(c.ex, ['rec', H14, H14, []], 'laz.header', (sid,))
def opens(c):
    sid, h = opened(c)
    return and_(not_(c.read(rstream(c)).f['fail']), uf('laz.opens', (sid,), 'B'))
def init_reader(c):
    s = c.read(rstream(c))
    if c.throws(s.f['fail']):
        return None
    sid, h = opened(c)
    if c.throws(not_(uf('laz.opens', (sid,), 'B'))):
        return None
    goto(c, uf('laz.opengpos', (sid,), 'I', 0, 1 << 60))
    c.set('reader_', c.ex.new_object(c.st, GEN, ReaderRec(GEN, {'%reader': sid}, h)))
    hd = c.call(c.fid('las::LasHeader::FromLazPerf(const lazperf::header14 &)'), None, [c.ex.cell(c.st, h, 'spec')])
    if c.st.pc is FALSE:
        return None
    m, end = listing(c, h)
    c.set('vlrs_', m)
    goto(c, end)
    wkt = wkt_of(c, m)
    eb = eb_of(c, m)
    c.set('las_config_.header_', c.ex.new_object(c.st, HCLS, hd))
    c.set('las_config_.wkt_', c.f(wkt, 'wkt'))
    c.set('las_config_.eb_vlr_', c.new(EB, {'items': c.f(eb, 'items')}))
    return m
def whole(c):
    """the records of a file that opens lie in it"""
    sid, h = opened(c)
    m, end = listing(c, h)
    return [(n, implies(opens(c), t)) for n, t in in_file(c, h) + wkt_ok(c, m) + eb_ok(c, m)]
@contract(BR + '::InitReader()', 'C15', pre=whole)
def _(c):
    init_reader(c)
@contract(BR + '::BaseReader(istream *)', 'C15', pre=lambda c: whole_at(c, c.a(0)))
def _(c):
    blank_reader(c)
    c.set('in_stream_', c.a(0))
    init_reader(c)
def blank_reader(c):
    c.set('las_config_.header_', I(0))
    c.set('las_config_.wkt_', Seq())
    c.set('las_config_.eb_vlr_', I(0))
    c.set('vlrs_', c.T.zero(c.ex, vlrs_type(c)))
    c.set('reader_', I(0))
class At:
    """the same context with another input stream"""
    def __init__(self, c, ref):
        self.__dict__.update(c=c, ref=ref)
    def __getattr__(self, k):
        return getattr(self.c, k)
    def get(self, name, lv=None):
        return self.ref if name == 'in_stream_' and lv is None else self.c.get(name, lv)
def whole_at(c, ref):
    return whole(At(c, ref))
def info_in_file(c, m):
    """the COPC records of a file lie in it, when it has them"""
    return info_there(c, m) + extents_ok(c, m)
def init_copc(c):
    m = c.get('vlrs_')
    if c.throws(or_(eq(fetch(c, m, user(b'copc'), I(1)), I(0)), eq(fetch(c, m, user(b'copc'), I(1000)), I(0)))):
        return
    info = copc_info(c, m)
    if info is None:
        return
    lz = c.flv('las_config_')
    x = copc_extents(c, m, wrap(hget(c, rheader(c), 'point_format_id'), 8, True), wrap(c.get('items', ebobj(c, lz)).n, 16, False))
    if x is None:
        return
    cf = c.zero('copc::CopcConfig')
    old, c.this = c.this, cf
    of_config(c, lz, TRUE)
    copc_parts(c, c.ex.cell(c.st, info, 'spec'), c.ex.cell(c.st, x, 'spec'))
    c.this = old
    if c.st.pc is FALSE:
        return
    c.set('config_', c.read(cf))
    h = c.zero(HI)
    c.this = h
    start(c, wrap(c.f(info, 'root_hier_offset'), 64, True), wrap(c.f(info, 'root_hier_size'), 32, True), FALSE)
    c.this = old
    c.set('hierarchy_', c.ex.new_object(c.st, HI, c.read(h)))
def cfg_there(c):
    lz = c.flv('las_config_')
    return [('the file has been opened', and_(ne(c.get('reader_'), I(0)), ne(c.get('header_', lz), I(0)), ne(c.get('eb_vlr_', lz), I(0)), ne(c.get('in_stream_'), I(0))))]
@contract('Reader::InitCopcReader()', 'C15 C14 C16', pre=lambda c: alive(c) + cfg_there(c) + info_in_file(c, c.get('vlrs_')))
def _(c):
    init_copc(c)
def whole_copc(c, ref):
    a = At(c, ref)
    sid, h = opened(a)
    m, end = listing(a, h)
    return whole(a) + [(n, implies(opens(a), t)) for n, t in info_in_file(a, m)]
def blank_cfg(c, f):
    for k in ('header_', 'eb_vlr_', 'copc_info_', 'copc_extents_'):
        c.set(f + '.' + k, I(0))
    c.set(f + '.wkt_', Seq())
@contract('Reader::Reader(istream *)', 'C15 C14 C16', pre=lambda c: whole_copc(c, c.a(0)))
def _(c):
    c.set('hierarchy_', I(0))
    blank_reader(c)
    blank_cfg(c, 'config_')
    c.set('in_stream_', c.a(0))
    if init_reader(c) is not None and c.st.pc is not FALSE:
        init_copc(c)
@contract('Reader::CopcConfig()', 'C14 C15')
def _(c):
    c.ret(c.get('config_'))
@contract('laz::LazReader::LazConfig()', 'C14 C15')
def _(c):
    c.ret(c.get('las_config_'))
@contract('laz::LazReader::LazReader(istream *)', 'C15', pre=lambda c: whole_at(c, c.a(0)))
def _(c):
    blank_reader(c)
    c.set('in_stream_', c.a(0))
    init_reader(c)

# ------------------------------------------------------------------ chunks and pages
RB = 'copc::BaseReader'
def cheader(c):
    return c.obj(c.get('config_.header_'), HCLS)
def header_ok(c, h):
    f = c.get('point_format_id_', h)
    return [('the header describes records of its format', implies(fmt_ok(f), le(base_size(f), c.get('point_record_length_', h))))]
def positioned(c, lv):
    return [('the offset is a position in a file', le(c.get('offset', lv), I((1 << 63) - 1)))]
def point_bytes(c, node, h):
    """exactly the number of records the node counts, decoded from where its chunk starts"""
    if c.throws(not_(evalid(c, node))):
        return None
    goto(c, c.get('offset', node))
    f = c.get('point_format_id_', h)
    unframe(c, rstream(c), f, sub(c.get('point_record_length_', h), base_size(f)), c.get('point_count', node))
    r, c.retval = c.retval, None
    return None if c.st.pc is FALSE else r
def unpacked(c, data, h):
    f = c.get('point_format_id_', h)
    unpack_all(c, data, f, sub(c.get('point_record_length_', h), base_size(f)), hv3(c, h, 'scale_'), hv3(c, h, 'offset_'))
def chunk_ok(c):
    return alive(c) + positioned(c, c.lv(0)) + header_ok(c, cheader(c))
@contract('Reader::GetPointData(const Node &)', 'C24', pre=chunk_ok)
def _(c):
    r = point_bytes(c, c.lv(0), cheader(c))
    if r is not None:
        c.ret(r)
@contract('Reader::GetPoints(const Node &)', 'C24', pre=chunk_ok)
def _(c):
    h = cheader(c)
    r = point_bytes(c, c.lv(0), h)
    if r is not None:
        unpacked(c, r, h)
@contract('Reader::GetPointDataCompressed(const Node &)', 'C24', pre=lambda c: alive(c) + positioned(c, c.lv(0)) + [
    ('the chunk lies in the file', le(add(c.get('offset', c.lv(0)), c.get('byte_size', c.lv(0))), c.read(rstream(c)).f['data'].n))])
def _(c):
    node = c.lv(0)
    if c.throws(not_(evalid(c, node))):
        return
    goto(c, c.get('offset', node))
    n = c.get('byte_size', node)
    at = take(c, rstream(c), n)
    c.ret(tab(n, lambda i: wrap(at(i), 8, True)))
def page_entries(c, page):
    """(how many entries the page has, entry k as it lies in the file); throws unless every entry is there and valid"""
    if c.throws(not_(pvalid(c, page))):
        return None
    lv = rstream(c)
    s = c.read(lv)
    d, off = s.f['data'], wrap(c.get('offset', page), 64, True)
    lost = or_(s.f['fail'], lt(off, I(0)))
    n = tdiv(c.get('byte_size', page), I(32))
    n = ite(le(I(0), n), n, I(0))
    at = lambda k: lambda i: seq_get(d, add(off, mul(I(32), k), i if isinstance(i, Term) else I(i)))
    e = lambda k: parse_entry(c, at(k))
    broken = lambda k: or_(lt(d.n, add(off, mul(I(32), k), I(32))), bad_entry(c, e(k)))
    if c.throws(lost) or c.throws(exists_slot(c, n, broken)):
        return None
    c.write(lv, s.set('fail', FALSE).set('g', add(off, mul(I(32), n))))
    c.set('loaded', TRUE, page)
    return n, e
@contract('Reader::ReadPage(std::shared_ptr<Internal::PageInternal>)', 'C16', pre=lambda c: [('a page', ne(c.a(0), I(0)))], throw_any=True)
def _(c):
    r = page_entries(c, c.obj(c.a(0), PI))
    if r is not None:
        c.ret(tab(*r))
def bad_entry(c, v):
    return not_(evalid(c, c.ex.cell(c.st, v, 'spec')))
# ------------------------------------------------------------------ LAZ files
@contract('laz::LazReader::GetPointData()', 'C24', pre=lambda c: alive(c) + laz_ok(c))
def _(c):
    laz_data(c)
def lheader(c):
    return c.obj(c.get('las_config_.header_'), HCLS)
def laz_ok(c):
    h = lheader(c)
    return header_ok(c, h) + [
        ('the configuration has the record length of the file', eq(c.get('point_record_length_', h), hget(c, rheader(c), 'point_record_length')))]
def laz_data(c):
    """every record of the file, in order"""
    h, r = lheader(c), c.get('reader_')
    rl, n = c.get('point_record_length_', h), c.get('point_count_', h)
    goto(c, add(c.get('point_offset_', h), I(8)))
    if c.throws(not_(fmt_ok(c.get('point_format_id_', h)))):
        return None
    rid, at = c.ex.heap_read(c.st, '%reader', r), c.ex.heap_read(c.st, '%rcount', r)
    k = fresh('rec', 'I', 0, None)
    c.ex.heap_write(c.st, '%rcount', r, add(at, n))
    v = Seq([Flat(n, k, tab(rl, lambda i: wrap(uf('rd.byte', (rid, add(at, k), i), 'I', 0, 255), 8, True)))])
    c.ret(v)
    return v
@contract('laz::LazReader::GetPoints()', 'C24', pre=lambda c: alive(c) + laz_ok(c))
def _(c):
    h = lheader(c)
    v = laz_data(c)
    if v is not None:
        c.retval = None
        unpacked(c, v, h)

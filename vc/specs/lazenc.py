"""The on-disk layout of LAS headers and records as lazperf writes and reads them (checked against the stand-in text)."""
from ..spec import *
from .streams import *
from .header import H14

def u(v, n):
    return le_bytes(v, n)
def chars(s, n):
    return [wrap(seq_get(s, I(i)), 8, False) for i in range(n)]
L14 = (('magic', 'c4'), ('file_source_id', 2), ('global_encoding', 2), ('guid', 'c16'), ('version.major', 1), ('version.minor', 1),
       ('system_identifier', 'c32'), ('generating_software', 'c32'), ('creation.day', 2), ('creation.year', 2), ('header_size', 2),
       ('point_offset', 4), ('vlr_count', 4), ('point_format_id', 1), ('point_record_length', 2), ('point_count', 4),
       ('points_by_return', 'a5.4'), ('scale.x', 'd'), ('scale.y', 'd'), ('scale.z', 'd'), ('offset.x', 'd'), ('offset.y', 'd'),
       ('offset.z', 'd'), ('maxx', 'd'), ('minx', 'd'), ('maxy', 'd'), ('miny', 'd'), ('maxz', 'd'), ('minz', 'd'), ('wave_offset', 8),
       ('evlr_offset', 8), ('evlr_count', 4), ('point_count_14', 8), ('points_by_return_14', 'a15.8'))
HD = (('reserved', 2), ('user_id', 't16'), ('record_id', 2), ('data_length', 2), ('description', 't32'))
EHD = HD[:3] + (('data_length', 8),) + HD[4:]
INFO = tuple((f, 'd') for f in ('center_x', 'center_y', 'center_z', 'halfsize', 'spacing')) + \
    (('root_hier_offset', 8), ('root_hier_size', 8), ('gpstime_minimum', 'd'), ('gpstime_maximum', 'd'), ('reserved', 'a11.8'))
FIELD = (('reserved', 'c2'), ('data_type', 1), ('options', 1), ('name', 't32'), ('unused', 'c4'), ('no_data', 'a3.8'), ('minval', 'a3.8'),
         ('maxval', 'a3.8'), ('scale', 'v3'), ('offset', 'v3'), ('description', 't32'))
def encode(c, lay, get):
    out = []
    for f, k in lay:
        v = get(f)
        if isinstance(k, int):
            out += u(v, k)
        elif k == 'd':
            out += d_bytes(v)
        elif k[0] == 't':
            out += padded(v, int(k[1:]))
        elif k[0] == 'c':
            out += chars(v, int(k[1:]))
        elif k[0] == 'v':
            for i in range(int(k[1:])):
                out += d_bytes(seq_get(v, I(i)))
        else:
            n, w = [int(x) for x in k[1:].split('.')]
            for i in range(n):
                out += u(seq_get(v, I(i)), w)
    return out
def of(c, lv):
    return lambda f: c.get(f, lv)
def wr(cls, lay):
    @contract('lazperf::%s::write(ostream &) const' % cls, 'C21', pre=lambda c: within(c, c.lv(0)))
    def _(c):
        over(c, c.lv(0), encode(c, lay, of(c, c.this)))
wr('vlr_header', HD)
wr('evlr_header', EHD)
wr('header14', L14)
wr('copc_info_vlr', INFO)
wr('eb_vlr::ebfield', FIELD)
def fields_bytes(c, items):
    k = fresh('ebf', 'I', 0, None)
    e = c.ex.cell(c.st, seq_get(items, k), 'spec')
    return Seq([Flat(items.n, k, lit(encode(c, FIELD, of(c, e))))])
@contract('lazperf::eb_vlr::write(ostream &) const', 'C21', pre=lambda c: within(c, c.lv(0)))
def _(c):
    over(c, c.lv(0), fields_bytes(c, c.get('items')))
def laz_size(fmt, eb):
    return add(I(34), mul(I(6), laz_items(fmt, eb)))
def laz_items(fmt, eb):
    return add(I(1), ite(le(I(7), fmt), I(1), I(0)), ite(lt(I(0), eb), I(1), I(0)))
@contract('lazperf::laz_vlr::size() const', 'C21')
def _(c):
    c.ret(laz_size(c.get('format'), c.get('eb_count')))
def laz_bytes(c, fmt, eb, chunk):
    n = laz_size(fmt, eb)
    head = u(I(3), 2) + [I(0)] * 10 + u(chunk, 4) + [I(0)] * 16 + u(laz_items(fmt, eb), 2)
    return cat(lit(head), tab(sub(n, I(34)), lambda i: I(0)))
@contract('lazperf::laz_vlr::write(ostream &) const', 'C21', pre=lambda c: within(c, c.lv(0)))
def _(c):
    over(c, c.lv(0), laz_bytes(c, c.get('format'), c.get('eb_count'), c.get('chunk_size')))
def head_of(c, kind, user, rec, length, desc):
    h = c.zero('lazperf::' + kind)
    c.set('user_id', bytes_lit(user), h)
    c.set('record_id', I(rec), h)
    c.set('data_length', wrap(length, 16 if kind[0] == 'v' else 64, False), h)
    c.set('description', desc if isinstance(desc, Seq) else bytes_lit(desc), h)
    return c.read(h)
def heads(cls, size, user, rec, desc):
    @contract('lazperf::%s::header() const' % cls, 'C21')
    def _(c):
        c.ret(head_of(c, 'vlr_header', user, rec, size(c), desc))
    @contract('lazperf::%s::eheader() const' % cls, 'C21')
    def _(c):
        c.ret(head_of(c, 'evlr_header', user, rec, size(c), desc))
heads('laz_vlr', lambda c: laz_size(c.get('format'), c.get('eb_count')), b'laszip encoded', 22204, b'lazperf variant')
heads('eb_vlr', lambda c: mul(I(192), c.get('items').n), b'LASF_Spec', 4, b'')
heads('wkt_vlr', lambda c: c.get('wkt').n, b'LASF_Projection', 2112, b'')
heads('copc_info_vlr', lambda c: I(160), b'copc', 1, b'COPC info VLR')
@contract('lazperf::wkt_vlr::write(ostream &) const', 'C21', pre=lambda c: within(c, c.lv(0)))
def _(c):
    over(c, c.lv(0), smap(c.get('wkt'), uchar))
from ..stdlib import smap, uchar

"""Framing of compressed chunks (C23).  The codec itself is trusted: see vc/lazmodel.py."""
from ..spec import *
from .point import fmt_ok, base_size
from .streams import *
from ..stdlib import smap, schar, uchar
from ..lazmodel import encoded, record, chunk_table

MAX31 = (1 << 31) - 1
def frame(c, data, fmt, eb):
    """(bytes the codec emits for these records, number of records), or None when the buffer is refused"""
    if c.throws(not_(fmt_ok(fmt))):
        return None
    rl = add(base_size(fmt), eb)
    if c.throws(or_(ne(tmod(data.n, rl), I(0)), lt(I(MAX31), data.n))):
        return None
    return encoded(c.ex.seqid(smap(data, uchar)), fmt, eb), tdiv(data.n, rl)
def short(i, j):
    return lambda c: [('the record length is a 16-bit number', implies(fmt_ok(c.a(i)), le(add(base_size(c.a(i)), c.a(j)), I(65535))))]
def hfmt(c, i):
    h = c.lv(i)
    f = c.get('point_format_id_', h)
    return f, sub(c.get('point_record_length_', h), base_size(f))
def hshort(i):
    def p(c):
        f, eb = hfmt(c, i)
        return [('the header describes records of its format', implies(fmt_ok(f), le(I(0), eb)))]
    return p
both = lambda *fs: lambda c: [x for f in fs for x in f(c)]

Z = 'laz::Compressor::CompressBytes'
@contract(Z + '(ostream &, const i8 &, const u16 &, const std::vector<char> &)', 'C23',
          pre=both(short(1, 2), lambda c: appending(c, c.lv(0))))
def _(c):
    r = frame(c, c.a(3), c.a(1), c.a(2))
    if r:
        put(c, c.lv(0), r[0])
        c.ret(r[1])
@contract(Z + '(ostream &, const las::LasHeader &, const std::vector<char> &)', 'C23',
          pre=both(hshort(1), lambda c: appending(c, c.lv(0))))
def _(c):
    r = frame(c, c.a(2), *hfmt(c, 1))
    if r:
        put(c, c.lv(0), r[0])
        c.ret(r[1])
@contract(Z + '(const std::vector<char> &, const i8 &, const u16 &)', 'C23', pre=short(1, 2))
def _(c):
    r = frame(c, c.a(0), c.a(1), c.a(2))
    if r:
        c.ret(smap(r[0], schar))
@contract(Z + '(std::vector<char> &, const las::LasHeader &)', 'C23', pre=hshort(1))
def _(c):
    r = frame(c, c.a(0), *hfmt(c, 1))
    if r:
        c.ret(smap(r[0], schar))

# ------------------------------------------------------------------ decompression
def unframe(c, lv, fmt, eb, count):
    """exactly count records decoded from the position of the stream, concatenated"""
    if c.throws(not_(fmt_ok(fmt))):
        return
    s = c.read(lv)
    sid, start = c.ex.seqid(s.f['data']), s.f['g']
    rl = add(base_size(fmt), eb)
    n = ite(le(I(0), count), count, I(0))
    c.write(lv, s.set('fail', FALSE).set('g', ite(eq(n, I(0)), start, uf('dec.gpos', (sid, start, fmt, eb, n), 'I', 0, 1 << 60))))
    c.ret(decoded_records(c, sid, start, fmt, eb, n))
def decoded_records(c, sid, start, fmt, eb, n):
    k = fresh('rec', 'I', 0, None)
    return smap(Seq([Flat(n, k, record(sid, start, fmt, eb, k, add(base_size(fmt), eb)))]), schar)
def of_bytes(c, data, fmt, eb, count):
    if c.throws(not_(fmt_ok(fmt))):
        return
    n = ite(le(I(0), count), count, I(0))
    c.ret(decoded_records(c, c.ex.seqid(smap(data, uchar)), I(0), fmt, eb, n))
U = 'laz::Decompressor::DecompressBytes'
@contract(U + '(istream &, const i8 &, const u16 &, const int &)', 'C23 C24', pre=short(1, 2))
def _(c):
    unframe(c, c.lv(0), c.a(1), c.a(2), c.a(3))
@contract(U + '(istream &, const las::LasHeader &, const int &)', 'C23 C24', pre=hshort(1))
def _(c):
    unframe(c, c.lv(0), *hfmt(c, 1), c.a(2))
@contract(U + '(const std::vector<char> &, const i8 &, const u16 &, const int &)', 'C23', pre=short(1, 2))
def _(c):
    of_bytes(c, c.a(0), c.a(1), c.a(2), c.a(3))
@contract(U + '(const std::vector<char> &, const las::LasHeader &, const int &)', 'C23', pre=hshort(1))
def _(c):
    of_bytes(c, c.a(0), *hfmt(c, 1), c.a(2))

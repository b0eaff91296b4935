"""Trusted contracts of the lazperf codec, chunk table, stream adaptors and point reader.  The VLR and header
encoders of lazperf are not modelled here: their stand-in text is extracted and executed like repository code."""
from .term import *
from .values import *
from .types import norm, U8, REFMAX

MODELLED = ('lazperf::build_las_', 'lazperf::las_compressor', 'lazperf::las_decompressor', 'lazperf::compress_chunk_table',
            'lazperf::decompress_chunk_table', 'lazperf::InFileStream', 'lazperf::OutFileStream', 'lazperf::reader')
BASE = {6: 30, 7: 36, 8: 38}

class Laz:
    def __init__(self, std):
        self.std, self.T = std, std.T

    def default(self, ex, st, cls):
        return None

    def sym_extra(self, ex, key, ref):
        if key == '%rhdr':
            return self.T.sym(ex, ['rec', 'lazperf::header14', 'lazperf::header14', []], 'H.%rhdr', (ref,))
        if key in ('%cin',):
            n = uf('H.%cin.n', (ref,), 'I', 0, (1 << 31) - 1)
            return tab(n, lambda k: uf('H.%cin', (ref, k), 'I', 0, 255))
        if key in ('%cdone',):
            return uf('H' + key, (ref,), 'B')
        if key == '%cstream':
            raise Limit('codec of unknown stream')
        return uf('H.' + key, (ref,), 'I', 0, 1 << 60)

    def reclen(self, ex, st, fmt, eb):
        base = None
        for f, n in sorted(BASE.items()):
            base = I(n) if base is None else ite(eq(fmt, I(f)), I(n), base)
        return add(base, eb)

    def ctor(self, ex, st, e):
        cls = e['t'][2]
        if cls in ('lazperf::InFileStream', 'lazperf::OutFileStream'):
            lv = ex.lv(st, e['args'][0])
            return Rec(cls, {'%codec': Ptr(lv)})
        if cls.startswith('lazperf::reader::'):
            return self.build(ex, st, e['t'], e['args'])
        return NotImplemented

    def build(self, ex, st, t, args):
        cls = t[2]
        if cls in ('lazperf::reader::generic_file', 'lazperf::reader::basic_file'):
            lv = ex.lv(st, args[0])
            s = ex.read(st, lv)
            sid = ex.seqid(s.f['data'])
            # opening throws unless the magic matches; the header is what the bytes decode to
            ex.throw(st, not_(uf('laz.opens', (sid,), 'B')))
            h = self.T.sym(ex, ['rec', 'lazperf::header14', 'lazperf::header14', []], 'laz.header', (sid,))
            ex.write(st, lv, s.set('g', uf('laz.opengpos', (sid,), 'I', 0, 1 << 60)).set('fail', FALSE))
            r = Rec(cls, {'%reader': sid})
            self.pending = h
            return ReaderRec(cls, {'%reader': sid}, h)
        return NotImplemented

    def call(self, ex, st, e, q):
        if e.get('f') in self.T.prog.funs:
            return NotImplemented
        m = q.split('lazperf::', 1)[1]
        f = getattr(self, 'm_' + m.replace('::', '_'), None)
        if f is None:
            if e.get('virtual') or q.endswith('operator='):
                return NotImplemented
            raise Limit('no model of ' + q)
        return f(ex, st, e)

    # adaptors
    def m_InFileStream_cb(self, ex, st, e):
        return ex.fld(ex.read(st, self.std.obj(ex, st, e)), '%codec')
    m_OutFileStream_cb = m_InFileStream_cb

    # codec
    def m_build_las_compressor(self, ex, st, e):
        cb, fmt, eb = [ex.ev(st, a) for a in e['args']]
        r = ex.alloc(st, 'lazperf::las_compressor')
        for k, v in (('%cstream', cb), ('%cfmt', fmt), ('%ceb', eb), ('%cin', Seq()), ('%cdone', FALSE)):
            ex.heap_write(st, k, r, v)
        return r
    def m_build_las_decompressor(self, ex, st, e):
        cb, fmt, eb = [ex.ev(st, a) for a in e['args']]
        r = ex.alloc(st, 'lazperf::las_decompressor')
        s = ex.read(st, cb.lv)
        sid = ex.seqid(s.f['data'])
        for k, v in (('%cstream', cb), ('%cfmt', fmt), ('%ceb', eb), ('%cdata', sid), ('%cstart', s.f['g']), ('%ccount', I(0))):
            ex.heap_write(st, k, r, v)
        return r
    def cobj(self, ex, st, e):
        lv = self.std.obj(ex, st, e)
        if lv[0] != 'obj':
            raise Limit('codec object')
        return lv[1]
    def m_las_compressor_compress(self, ex, st, e):
        r = self.cobj(ex, st, e)
        p = ex.ev(st, e['args'][0])
        n = self.reclen(ex, st, ex.heap_read(st, '%cfmt', r), ex.heap_read(st, '%ceb', r))
        ex.ob(st, 'codec', not_(ex.heap_read(st, '%cdone', r)), 'no record after the end of the compressed stream')
        b = self.std.mem_bytes(ex, st, p, n)
        ex.heap_write(st, '%cin', r, cat(ex.heap_read(st, '%cin', r), b))
        return p
    def m_las_compressor_done(self, ex, st, e):
        r = self.cobj(ex, st, e)
        ex.ob(st, 'codec', not_(ex.heap_read(st, '%cdone', r)), 'the compressed stream is ended once')
        s = ex.heap_read(st, '%cin', r)
        sid = ex.seqid(s)
        fmt, eb = ex.heap_read(st, '%cfmt', r), ex.heap_read(st, '%ceb', r)
        self.std.stream_write(ex, st, ex.heap_read(st, '%cstream', r).lv, encoded(sid, fmt, eb))
        ex.heap_write(st, '%cdone', r, TRUE)
    def m_las_decompressor_decompress(self, ex, st, e):
        r = self.cobj(ex, st, e)
        p = ex.ev(st, e['args'][0])
        fmt, eb = ex.heap_read(st, '%cfmt', r), ex.heap_read(st, '%ceb', r)
        n = self.reclen(ex, st, fmt, eb)
        data, start, k = ex.heap_read(st, '%cdata', r), ex.heap_read(st, '%cstart', r), ex.heap_read(st, '%ccount', r)
        self.std.mem_write(ex, st, p, record(data, start, fmt, eb, k, n), n, n)
        ex.heap_write(st, '%ccount', r, add(k, I(1)))
        lv = ex.heap_read(st, '%cstream', r).lv
        s = ex.read(st, lv)
        # how far the decoder read ahead, and whether it met the end of the file, is not specified
        ex.write(st, lv, s.set('g', uf('dec.gpos', (data, start, fmt, eb, add(k, I(1))), 'I', 0, 1 << 60))
                 .set('fail', uf('dec.fail', (data, start, fmt, eb, add(k, I(1))), 'B')))
        return p
    def m_compress_chunk_table(self, ex, st, e):
        cb = ex.ev(st, e['args'][0])
        ch = ex.read(st, ex.lv(st, e['args'][1]))
        v = ex.ev(st, e['args'][2])
        sid = ex.seqid(ch)
        self.std.stream_write(ex, st, cb.lv, chunk_table(sid, v))

    # reader
    def rref(self, ex, st, e):
        lv = self.std.obj(ex, st, e)
        if lv[0] == 'obj':
            return lv[1]
        raise Limit('reader object')
    def m_reader_basic_file_header(self, ex, st, e):
        return ('hf', self.rref(ex, st, e), '%rhdr')
    def m_reader_basic_file_readPoint(self, ex, st, e):
        r = self.rref(ex, st, e)
        p = ex.ev(st, e['args'][0])
        k = ex.heap_read(st, '%rcount', r)
        h = ex.heap_read(st, '%rhdr', r)
        n = h.f['lazperf::header12::point_record_length']
        rid = ex.heap_read(st, '%reader', r)
        self.std.mem_write(ex, st, p, tab(n, lambda i: uf('rd.byte', (rid, k, i), 'I', 0, 255)), n, n)
        ex.heap_write(st, '%rcount', r, add(k, I(1)))

class ReaderRec(Rec):
    __slots__ = ('hdr',)
    def __init__(self, cls, f, hdr):
        Rec.__init__(self, cls, f)
        self.hdr = hdr

def encoded(sid, fmt, eb):
    """bytes the codec emits for the records whose content is identified by sid"""
    n = uf('laz.len', (sid, fmt, eb), 'I', 0, (1 << 31) - 1)
    return tab(n, lambda i: uf('laz.byte', (sid, fmt, eb, i), 'I', 0, 255))

def record(data, start, fmt, eb, k, n):
    """k-th record decoded from position start"""
    return tab(n, lambda i: uf('dec.byte', (data, start, fmt, eb, k, i), 'I', 0, 255))

def chunk_table(sid, v):
    n = uf('ct.len', (sid,), 'I', 0, (1 << 31) - 1)
    return tab(n, lambda i: uf('ct.byte', (sid, i), 'I', 0, 255))

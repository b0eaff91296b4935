"""Reading headers and records back from their on-disk layout (the layouts of lazenc)."""
from ..spec import *
from .streams import *
from .header import field_text, H14
from .lazenc import HD, EHD, INFO, FIELD, L14
from ..stdlib import smap, schar

def size_of(lay):
    n = 0
    for f, k in lay:
        if isinstance(k, int):
            n += k
        elif k == 'd':
            n += 8
        elif k[0] in 'tc':
            n += int(k[1:])
        elif k[0] == 'v':
            n += 8 * int(k[1:])
        else:
            a, b = [int(x) for x in k[1:].split('.')]
            n += a * b
    return n
UNSIGNED = {('reserved', 'c2'), ('unused', 'c4')}
def decode(c, lay, at, off=0):
    """[(field, value)] of the bytes at(off), at(off+1), ..."""
    out = []
    def pos(i):
        return add(off, I(i)) if isinstance(off, Term) else off + i
    o = 0
    for f, k in lay:
        if isinstance(k, int):
            v, w = get_int(at, pos(o), k, False), k
        elif k == 'd':
            v, w = dfrom([at(pos(o + i)) for i in range(8)]), 8
        elif k[0] == 't':
            w = int(k[1:])
            v = field_text(c, lit([wrap(at(pos(o + i)), 8, True) for i in range(w)]), w)
        elif k[0] == 'c':
            w = int(k[1:])
            v = lit([at(pos(o + i)) if (f, k) in UNSIGNED else wrap(at(pos(o + i)), 8, True) for i in range(w)])
        elif k[0] == 'v':
            n = int(k[1:])
            v, w = lit([dfrom([at(pos(o + 8 * j + i)) for i in range(8)]) for j in range(n)]), 8 * n
        else:
            n, b = [int(x) for x in k[1:].split('.')]
            v, w = lit([get_int(at, pos(o + j * b), b, False) for j in range(n)]), n * b
        out.append((f, v))
        o += w
    return out
def fill(c, lv, fields):
    for f, v in fields:
        c.set(f, v, lv)
def rd(cls, lay, create=True):
    n = size_of(lay)
    @contract('lazperf::%s::read(istream &)' % cls, 'C15', pre=lambda c: readable(c, c.lv(0), I(n)))
    def _(c):
        fill(c, c.this, decode(c, lay, take(c, c.lv(0), n)))
    if create:
        @contract('lazperf::%s::create(istream &)' % cls, 'C15', pre=lambda c: readable(c, c.lv(0), I(n)))
        def _(c):
            r = c.zero('lazperf::' + cls)
            fill(c, r, decode(c, lay, take(c, c.lv(0), n)))
            c.ret(c.read(r))
rd('vlr_header', HD)
rd('evlr_header', EHD)
rd('copc_info_vlr', INFO)
rd('eb_vlr::ebfield', FIELD, False)
def eb_items(c, at, n):
    return tab(n, lambda k: eb_item(c, at, k))
def eb_item(c, at, k):
    r = c.zero('lazperf::eb_vlr::ebfield')
    fill(c, r, decode(c, FIELD, at, mul(I(192), k)))
    return c.read(r)
def eb_pre(c):
    return [('a size', le(I(0), c.a(1)))] + readable(c, c.lv(0), mul(I(192), fdiv_(c.a(1), 192)))
@contract('lazperf::eb_vlr::read(istream &, int)', 'C15', pre=eb_pre)
def _(c):
    n = fdiv_(c.a(1), 192)
    c.set('items', eb_items(c, take(c, c.lv(0), mul(I(192), n)), n))
@contract('lazperf::eb_vlr::create(istream &, int)', 'C15', pre=eb_pre)
def _(c):
    n = fdiv_(c.a(1), 192)
    c.ret(c.rec('lazperf::eb_vlr', items=eb_items(c, take(c, c.lv(0), mul(I(192), n)), n)))
def wkt_pre(c):
    return [('a size', le(I(0), c.a(1)))] + readable(c, c.lv(0), c.a(1))
def text(c, n):
    at = take(c, c.lv(0), n)
    return tab(n, lambda i: wrap(at(i), 8, True))
@contract('lazperf::wkt_vlr::read(istream &, int)', 'C15', pre=wkt_pre)
def _(c):
    c.set('wkt', text(c, c.a(1)))
@contract('lazperf::wkt_vlr::create(istream &, int)', 'C15', pre=wkt_pre)
def _(c):
    c.ret(c.rec('lazperf::wkt_vlr', wkt=text(c, c.a(1))))

"""Opening a COPC writer: its configuration and the empty file (C14, C20, C21)."""
from ..spec import *
from .point import fmt_ok, base_size
from .header import HCLS
from .config import *
from .extents import adapted, nslots, xinv, XCLS, ECLS, F4
from .hier import HI, start
from .writer import *
from .adding import W, wired
from .streams import appending

def choose(c, i, old):
    """the override if there is one"""
    o = c.a(i)
    return vite(o.has, o.val, old)
def overridden(c, src):
    h, x = hobj(c, src), xobj(c, src)
    fmt = choose(c, 2, c.get('point_format_id_', h))
    if c.throws(not_(fmt_ok(fmt))):
        return
    eb = c.ex.cell(c.st, choose(c, 6, c.read(ebobj(c, src))), 'spec')
    items = c.get('items', eb)
    if c.throws(or_(illegal(c, items), unbuildable(c, x))):
        return
    hv = hvals(c, h)
    hv.update(point_format_id_=fmt, point_record_length_=wrap(add(base_size(fmt), eb_bytes(c, items)), 16, False),
              scale_=choose(c, 3, hv['scale_']), offset_=choose(c, 4, hv['offset_']), copc_flag_=TRUE)
    set_config(c, hv, choose(c, 5, c.get('wkt_', src)), eb)
    c.set('copc_info_', copy_obj(c, ICLS, iobj(c, src)))
    one = adapted(c, x, fmt, wrap(items.n, 16, False))
    c.set('copc_extents_', c.new(XCLS, {'point_format_id_': fmt, 'has_extended_stats_': choose(c, 7, c.get('has_extended_stats_', x)),
          'extents_': c.each(nslots(fmt, wrap(items.n, 16, False)), lambda k: c.new(ECLS, dict(zip(F4, one(k)))))}))
def blank_config(c):
    return c.new(CWCLS, {'header_': I(0), 'wkt_': Seq(), 'eb_vlr_': I(0), 'copc_info_': I(0), 'copc_extents_': I(0)})
def open_writer(c):
    src = c.lv(1)
    ref = blank_config(c)
    cf = c.obj(ref, CWCLS)
    given = or_(*[c.a(i).has for i in range(2, 8)])
    c.this, old = cf, c.this
    c.when(given, lambda: overridden(c, src), lambda: of_copc(c, src))
    c.this = old
    if c.st.pc is FALSE:
        return
    c.set('config_', ref)
    h = c.zero(HI)
    c.this = h
    start(c, I(-1), I(-1), TRUE)
    c.this = old
    hr = c.ex.new_object(c.st, HI, c.read(h))
    c.set('hierarchy_', hr)
    if too_many(c, ref):
        return
    w = c.new(WCLS, {'open_': TRUE, 'out_stream_': I(0), 'chunks_': Seq(), 'point_count_': I(0), 'evlr_offset_': I(0), 'evlr_count_': I(0),
                     'config_': ref, 'hierarchy_': hr})
    c.this = c.obj(w, WCLS)
    begin(c, c.lv(0), ref)
    c.set('hierarchy_', hr)
    reserve(c)
    c.this = old
    c.set('writer_', w)
def openable(c):
    src = c.lv(1)
    o = c.a(6)
    items = c.get('items', ebobj(c, src))
    new = c.f(o.val, 'items')
    return appending(c, c.lv(0)) + supported(c, src, 65535) + [(n, xinv(c, xobj(c, src))) for n in ('extents with one slot per dimension',)] + [
        ('at most 65535 extra-byte items', and_(le(items.n, I(65535)), implies(o.has, le(new.n, I(65535))))),
        ('the point record fits into 16 bits', implies(or_(*[c.a(i).has for i in range(2, 8)]), fits16(c, vite(o.has, new, items))))]
def fits16(c, items):
    return lt(add(I(38), eb_bytes(c, items)), I(65536))
SIG = '(ostream &, const CopcConfigWriter &, const std::optional<i8> &, const std::optional<Vector3> &, const std::optional<Vector3> &, ' \
      'const std::optional<string> &, const std::optional<lazperf::eb_vlr> &, const std::optional<bool> &)'
for n in ('InitWriter', 'Writer'):
    contract(W + n + SIG, 'C14 C20 C21', pre=openable)(lambda c: open_writer(c))
@contract(W + 'Writer()', 'C20')
def _(c):
    for f in ('config_', 'writer_', 'hierarchy_'):
        c.set(f, I(0))
@contract(W + 'ReadPage(std::shared_ptr<Internal::PageInternal>)', 'C20')
def _(c):
    c.throws()

"""Default arguments: what a caller gets who leaves an argument out (evaluated from the declarations)."""
from ..spec import *
from .geometry import INVALID
from ..exec import Limit

def default(L, fun, param):
    """the value of a default argument, as the declaration in the sources gives it"""
    i, param = param
    ps = L.ex.prog.funs[L.fid(fun)]['params']
    if len(ps) <= i or ps[i].get('def') is None:
        raise Limit('%s: no default argument for %s' % (fun.split('(')[0], param))
    p = ps[i]
    v = L.ex.bind_arg(L.st, p['def'], p['t'])
    return L.read(v) if p['t'][0] == 'ref' else v
def number(L, fun, param, want):
    v = default(L, fun, param)
    L.prove('%s: default of %s' % (fun.split('(')[0], param[1]), (same if v.sort == 'D' else iff if v.sort == 'B' else eq)(v, want))
def fields(L, fun, param, want):
    v = default(L, fun, param)
    for f, w in want.items():
        L.prove('%s: default of %s.%s' % (fun.split('(')[0], param[1], f), (same if w.sort == 'D' else eq)(L.f(v, f), w))
def lemma_numbers(name, props, rows):
    @lemma(name, props)
    def _(L):
        for fun, param, want in rows:
            number(L, fun, param, want)
KEYS = dict(zip('dxyz', [I(x) if isinstance(x, int) else x for x in INVALID]))
ROOT = {a: I(0) for a in 'dxyz'}

lemma_numbers('a key is not among its own ancestors unless asked for', 'C08', [('VoxelKey::GetParents(bool) const', (0, 'include_self'), FALSE)])
lemma_numbers('points have no extra bytes unless asked for', 'C03 C05', [
    ('las::Point::Point(const i8 &, const u16 &)', (1, 'eb_byte_size'), I(0)), ('las::Points::Points(const i8 &, const u16 &)', (1, 'eb_byte_size'), I(0))])
lemma_numbers('extents have no extended statistics and no extra dimensions unless asked for', 'C12', [
    ('CopcExtent::CopcExtent(double, double, double, double)', (2, 'mean'), D(0.0)), ('CopcExtent::CopcExtent(double, double, double, double)', (3, 'var'), D(1.0)),
    ('CopcExtents::CopcExtents(i8, u16, bool)', (1, 'num_eb_items'), I(0)), ('CopcExtents::CopcExtents(i8, u16, bool)', (2, 'has_extended_stats'), FALSE),
    ('CopcExtents::CopcExtents(const las::CopcExtentsVlr &, i8, u16, bool)', (2, 'num_eb_items'), I(0)),
    ('CopcExtents::CopcExtents(const las::CopcExtentsVlr &, i8, u16, bool)', (3, 'has_extended_stats'), FALSE),
    ('CopcExtents::NumberOfExtents(i8, u16)', (1, 'num_eb_items'), I(0))])
lemma_numbers('queries go to full resolution unless asked otherwise', 'C17 C18', [
    ('Reader::%s(const Box &, double)' % f, (1, 'resolution'), D(0.0)) for f in ('GetNodesIntersectBox', 'GetNodesWithinBox', 'GetPointsWithinBox')] +
    [('Reader::GetAllPoints(double)', (0, 'resolution'), D(0.0))])
lemma_numbers('validation is silent unless asked otherwise', 'C19', [('Reader::ValidateSpatialBounds(bool)', (0, 'verbose'), FALSE)])

@lemma('nodes go into the root page unless asked otherwise', 'C20')
def _(L):
    for f in ('AddNode(const VoxelKey &, const las::Points &, const VoxelKey &)', 'AddNode(const VoxelKey &, const std::vector<char> &, const VoxelKey &)',
              'AddNodeCompressed(const VoxelKey &, const std::vector<char> &, int, const VoxelKey &)'):
        fields(L, 'Writer::' + f, (3 if 'Compressed' in f else 2, 'page_key'), ROOT)
@lemma('a node names no page unless asked otherwise', 'C16')
def _(L):
    fields(L, 'Node::Node(const Entry &, const VoxelKey &)', (1, 'page_key'), KEYS)

def config_defaults(L, cls, ext):
    fun = [f for f in L.ex.prog.byname[cls + '::' + cls.split('::')[-1]] if len(L.ex.prog.funs[f]['params']) == (6 if ext else 5)
           and L.ex.prog.funs[f]['params'][0]['n'] == 'point_format_id']
    from ..spec import short
    fun = short(fun[0])
    fields(L, fun, (1, 'scale'), dict(zip('xyz', [D(0.01)] * 3)))
    fields(L, fun, (2, 'offset'), dict(zip('xyz', [D(0.0)] * 3)))
    v = default(L, fun, (3, 'wkt'))
    L.prove('no WKT', eq(v.n, I(0)))
    v = default(L, fun, (4, 'extra_bytes_vlr'))
    L.prove('no extra bytes', eq(L.f(v, 'items').n, I(0)))
    if ext:
        number(L, fun, (5, 'has_extended_stats'), FALSE)
@lemma('a new configuration has the default scale and offset and nothing else unless asked for', 'C14')
def _(L):
    config_defaults(L, 'copc::CopcConfigWriter', True)
    config_defaults(L, 'copc::las::LazConfigWriter', False)

@lemma('a writer takes over the configuration it is given unless asked otherwise', 'C14')
def _(L):
    from ..spec import short
    for f in L.ex.prog.byname['copc::Writer::Writer'] + L.ex.prog.byname.get('copc::FileWriter::FileWriter', []):
        ps = L.ex.prog.funs[f]['params']
        for i, p in enumerate(ps):
            if p.get('def') is not None:
                v = default(L, short(f), (i, p['n']))
                L.prove('%s: no override by default of argument %d' % (short(f).split('(')[0], i), not_(v.has))

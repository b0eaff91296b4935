// C24: reading the data of nodes
#include "files.hpp"
using namespace drv;
using namespace copc;
static void checkPoints(las::Points ps, const std::vector<RefPoint> &want, const FileModel &m, const char *what)
{
    REQ(ps.PointFormatId() == m.fmt && (int)ps.PointRecordLength() == m.rec(), what << ": format of the result");
    REQ(ps.Size() == want.size(), what << ": " << ps.Size() << " points instead of " << want.size());
    size_t i = 0;
    for (auto &p : ps)
        samePoint(*p, want[i++], what);
}
static void nodes(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    if (r.coin(4))
    {
        m.items.clear();
        m.ebLen = randEb(r) % 2000;
        m.extents.resize(baseDims(m.fmt), {0, 0, 0, 1});
    }
    randHierarchy(m, r, true, 12);
    if (!m.nodes.empty() && r.coin(6))
        randPoints(m, m.nodes[0], r, 3000, false);
    buildFile(m, r, {});
    noteModel(m);
    std::istringstream in(m.bytes);
    Reader rd(&in);
    int ops = 2 + (int)r.below(8);
    for (int i = 0; i < ops; i++)
    {
        VoxelKey k = m.nodes.empty() || r.coin(4) ? randKey(r, 6) : r.pick(m.nodes).key;
        if (r.coin(8))
            k = r.coin() ? VoxelKey::InvalidKey() : VoxelKey{2, -1, 0, 0};
        auto *w = k.IsValid() ? m.find(k) : nullptr;
        int how = (int)r.below(6);
        NOTE("read " << str(k) << " how " << how);
        if (!w)
        {
            REQ(rd.GetPointData(k).empty() && rd.GetPointDataCompressed(k).empty(), "data of an absent node");
            auto p = rd.GetPoints(k);
            checkPoints(p, {}, m, "points of an absent node");
            auto n = k.IsValid() ? rd.FindNode(k) : Node();
            REQ(!n.IsValid(), "absent node is valid");
            REQ(throws([&] { rd.GetPointData(n); }) && throws([&] { rd.GetPoints(n); }) && throws([&] { rd.GetPointDataCompressed(n); }), "an invalid node was read");
            continue;
        }
        switch (how)
        {
        case 0: REQ(strOf(rd.GetPointData(k)) == w->raw, "data by key"); break;
        case 1: REQ(strOf(rd.GetPointDataCompressed(k)) == w->enc, "compressed data by key"); break;
        case 2: checkPoints(rd.GetPoints(k), w->pts, m, "points by key"); break;
        case 3: REQ(strOf(rd.GetPointData(rd.FindNode(k))) == w->raw, "data by node"); break;
        case 4: REQ(strOf(rd.GetPointDataCompressed(rd.FindNode(k))) == w->enc, "compressed data by node"); break;
        default: checkPoints(rd.GetPoints(rd.FindNode(k)), w->pts, m, "points by node");
        }
    }
}
static void sequential(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    m.copc = false;
    m.extended = m.hasExtents = false;
    int n = (int)r.below(5);
    for (int i = 0; i < n; i++)
    {
        MNode nd;
        nd.key = {0, 0, 0, 0};
        randPoints(m, nd, r, 1 + (int)r.below(20), true);
        m.nodes.push_back(nd);
    }
    buildFile(m, r, {});
    noteModel(m);
    std::string want;
    std::vector<RefPoint> pts;
    for (int i : m.chunkOrder)
    {
        want += m.nodes[i].raw;
        pts.insert(pts.end(), m.nodes[i].pts.begin(), m.nodes[i].pts.end());
    }
    std::istringstream in(m.bytes);
    laz::LazReader rd(&in);
    if (r.coin())
        REQ(strOf(rd.GetPointData()) == want, "sequential data");
    else
        checkPoints(rd.GetPoints(), pts, m, "sequential points");
}
std::vector<Case> drv::cases{{"nodes", nodes, 4}, {"sequential", sequential, 1}, {"files", copcWrappers, 1}, {"laz files", lazWrappers, 1}};

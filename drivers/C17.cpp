// C17: resolution queries
#include "iofile.hpp"
using namespace drv;
using namespace copc;
static std::vector<VoxelKey> keysOf(const std::vector<Node> &v)
{
    std::vector<VoxelKey> o;
    for (auto &n : v)
        o.push_back(n.key);
    return o;
}
static void run(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    randHierarchy(m, r, false, 14);
    buildFile(m, r, {});
    std::istringstream in(m.bytes);
    Reader rd(&in);
    int maxd = -1;
    for (auto &n : m.nodes)
        maxd = std::max(maxd, (int)n.key.d);
    for (int q = 0; q < 4; q++)
    {
        double res;
        switch (r.below(6))
        {
        case 0: res = 0; break;
        case 1: res = -std::fabs(modest(r)); break;
        case 2: res = m.spacing / std::pow(2.0, (double)r.range(-2, 12)); break;
        case 3: res = std::nextafter(m.spacing / std::pow(2.0, (double)r.range(0, 6)), r.coin() ? 0 : 1e18); break;
        default: res = m.spacing * r.unit() * 1.5;
        }
        NOTE("resolution " << res);
        int want = maxd;
        if (res > 0)
        {
            double s = m.spacing;
            for (int i = 0; i <= maxd; i++, s /= 2)
                if (s <= res)
                {
                    want = i;
                    break;
                }
        }
        trace += "model: ";
        noteModel(m);
        REQ(rd.GetDepthAtResolution(res) == want, "depth at resolution " << res << ": " << rd.GetDepthAtResolution(res) << " vs " << want);
        REQ(rd.GetMaxDepth() == maxd, "max depth");
        std::vector<VoxelKey> at, within;
        auto all = keysOf(rd.GetAllNodes());
        for (auto &k : all)
        {
            if (k.d == want)
                at.push_back(k);
            if (k.d <= want)
                within.push_back(k);
        }
        REQ(keysOf(rd.GetNodesAtResolution(res)) == at, "nodes at resolution " << res);
        REQ(keysOf(rd.GetNodesWithinResolution(res)) == within, "nodes within resolution " << res);
        auto h = rd.CopcConfig().LasHeader();
        auto i = rd.CopcConfig().CopcInfo();
        auto k = randKey(r, 30);
        REQ(same(k.Resolution(h, i), std::ldexp(m.spacing, -k.d)), "resolution of key " << str(k));
        REQ(same(VoxelKey::GetResolutionAtDepth(k.d, h, i), std::ldexp(m.spacing, -k.d)), "resolution at depth " << k.d);
    }
}
std::vector<Case> drv::cases{{"resolution", run, 1}};

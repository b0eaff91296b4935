// C19: spatial validation
#include "iofile.hpp"
using namespace drv;
using namespace copc;
static void run(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    bool wild = r.coin(4);
    randHierarchy(m, r, wild, 8);
    // a single perturbation
    int w = (int)r.below(6);
    if (!m.nodes.empty() && w == 1)
    {
        auto &n = m.nodes[r.below(m.nodes.size())];
        if (!n.pts.empty())
        {
            auto &p = n.pts[r.below(n.pts.size())];
            int32_t d = (int32_t)r.range(1, 2000) * (r.coin() ? 1 : -1);
            int a = (int)r.below(3);
            if (a == 0)
                p.xi += d, p.x = p.xi * m.scale.x + m.offset.x;
            else if (a == 1)
                p.yi += d, p.y = p.yi * m.scale.y + m.offset.y;
            else
                p.zi += d, p.z = p.zi * m.scale.z + m.offset.z;
        }
    }
    if (!m.nodes.empty() && r.coin(6))
        m.nodes[r.below(m.nodes.size())].pts.clear();
    if (w == 2)
    { // shrink the bounds a little without changing the largest extent
        double e[3] = {m.max.x - m.min.x, m.max.y - m.min.y, m.max.z - m.min.z};
        int a = (int)r.below(3);
        double s = spanOf(m);
        if (e[a] < s || (e[(a + 1) % 3] == s || e[(a + 2) % 3] == s))
            (a == 0 ? m.max.x : a == 1 ? m.max.y : m.max.z) -= e[a] * r.unit();
    }
    if (w == 3 && !m.nodes.empty())
    { // a node key outside of the octree
        auto &n = m.nodes[r.below(m.nodes.size())];
        if (n.page == 0 && n.key.d < 20)
        {
            int32_t v = (1 << n.key.d) + (int32_t)r.below(3);
            int a = (int)r.below(3);
            (a == 0 ? n.key.x : a == 1 ? n.key.y : n.key.z) = v;
            if (r.coin())
                n.pts.clear();
        }
    }
    buildFile(m, r, {});
    noteModel(m);
    double hl[3] = {m.min.x, m.min.y, m.min.z}, hh[3] = {m.max.x, m.max.y, m.max.z};
    bool want = true;
    for (auto &n : m.nodes)
    {
        double lo[3], hi[3];
        nodeBox(m, n.key, lo, hi);
        bool x = true, in1 = true;
        for (int a = 0; a < 3; a++)
        {
            x &= lo[a] <= hh[a] && hi[a] >= hl[a];
            in1 &= lo[a] >= hl[a] && hi[a] <= hh[a];
        }
        if (!x)
            want = false;
        for (auto &p : n.pts)
        {
            double c[3] = {p.x, p.y, p.z};
            bool ph = true, pn = true;
            for (int a = 0; a < 3; a++)
            {
                ph &= c[a] >= hl[a] && c[a] <= hh[a];
                pn &= c[a] >= lo[a] && c[a] <= hi[a];
            }
            if (!in1 && !ph)
                want = false;
            if (!pn)
                want = false;
        }
    }
    NOTE("perturbation " << w << " expected " << want);
    std::istringstream in(m.bytes);
    Reader rd(&in);
    bool got = rd.ValidateSpatialBounds(false);
    REQ(got == want, "validation returned " << got);
    std::ostringstream sink;
    auto *old = std::cout.rdbuf(sink.rdbuf());
    bool verbose;
    try
    {
        verbose = rd.ValidateSpatialBounds(true);
    }
    catch (...)
    {
        std::cout.rdbuf(old);
        throw;
    }
    std::cout.rdbuf(old);
    REQ(verbose == want, "verbose validation returned " << verbose);
    REQ(rd.GetAllNodes().size() == m.nodes.size(), "answers after validation");
    REQ(rd.ValidateSpatialBounds(false) == want, "second validation");
    for (auto &n : m.nodes)
        REQ(rd.GetPoints(n.key).Size() == n.pts.size(), "points after validation");
    REQ(same(rd.CopcConfig().LasHeader().min, m.min) && same(rd.CopcConfig().LasHeader().max, m.max), "header after validation");
}
std::vector<Case> drv::cases{{"validate", run, 1}};

// C18: spatial queries
#include "iofile.hpp"
using namespace drv;
using namespace copc;
static std::string recOf(const las::Point &p, const FileModel &m)
{
    RefPoint q;
    q.fmt = p.PointFormatId();
    q.xi = (int32_t)std::llround((p.X() - m.offset.x) / m.scale.x);
    q.yi = (int32_t)std::llround((p.Y() - m.offset.y) / m.scale.y);
    q.zi = (int32_t)std::llround((p.Z() - m.offset.z) / m.scale.z);
    q.intensity = p.Intensity();
    q.returns = p.ReturnsBitField();
    q.flags = p.FlagsBitField();
    q.cls = p.Classification();
    q.user = p.UserData();
    q.angle = p.ScanAngle();
    q.source = p.PointSourceId();
    q.gps = p.GPSTime();
    if (q.fmt >= 7)
        q.r = p.Red(), q.g = p.Green(), q.b = p.Blue();
    if (q.fmt == 8)
        q.nir = p.Nir();
    q.eb = p.ExtraBytes();
    return q.record();
}
static void run(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    randHierarchy(m, r, true, 12);
    buildFile(m, r, {});
    std::istringstream in(m.bytes);
    Reader rd(&in);
    int maxd = -1;
    for (auto &n : m.nodes)
        maxd = std::max(maxd, (int)n.key.d);
    for (int q = 0; q < 3; q++)
    {
        double blo[3], bhi[3];
        double span = spanOf(m);
        double mn[3] = {m.min.x, m.min.y, m.min.z};
        if (!m.nodes.empty() && r.coin(3))
        { // the exact box of some node, possibly of an ancestor
            auto k = r.pick(m.nodes).key;
            while (k.d > 0 && r.coin())
                k = {k.d - 1, k.x / 2, k.y / 2, k.z / 2};
            nodeBox(m, k, blo, bhi);
            if (r.coin(4))
                blo[r.below(3)] = -1e300;
        }
        else
            for (int a = 0; a < 3; a++)
            {
                double u = mn[a] + span * (r.unit() * 1.6 - 0.3), v = mn[a] + span * (r.unit() * 1.6 - 0.3);
                if (r.coin(4))
                    u = mn[a] + span * (double)r.below(9) / 8;
                if (r.coin(5))
                    u = -1e9, v = 1e9;
                blo[a] = std::min(u, v);
                bhi[a] = std::max(u, v);
            }
        double res = r.coin() ? 0 : m.spacing / (double)(1 << r.below(6)) * (r.coin(4) ? 1.01 : 1);
        int depth = maxd;
        if (res > 0)
        {
            double s = m.spacing;
            for (int i = 0; i <= maxd; i++, s /= 2)
                if (s <= res)
                {
                    depth = i;
                    break;
                }
        }
        noteModel(m);
        NOTE("box " << blo[0] << "," << blo[1] << "," << blo[2] << " - " << bhi[0] << "," << bhi[1] << "," << bhi[2] << " resolution " << res);
        Box box(blo[0], blo[1], blo[2], bhi[0], bhi[1], bhi[2]);
        std::vector<VoxelKey> within, meet;
        std::vector<std::string> pts, all;
        for (auto &n : rd.GetAllNodes())
        {
            if (n.key.d > depth)
                continue;
            auto *w = m.find(n.key);
            double lo[3], hi[3];
            nodeBox(m, n.key, lo, hi);
            bool in1 = true, x = true;
            for (int a = 0; a < 3; a++)
            {
                in1 &= lo[a] >= blo[a] && hi[a] <= bhi[a];
                x &= lo[a] <= bhi[a] && hi[a] >= blo[a];
            }
            if (in1)
                within.push_back(n.key);
            if (x)
                meet.push_back(n.key);
            for (auto &p : w->pts)
            {
                all.push_back(p.record());
                bool pi = p.x >= blo[0] && p.x <= bhi[0] && p.y >= blo[1] && p.y <= bhi[1] && p.z >= blo[2] && p.z <= bhi[2];
                if (in1 || (x && pi))
                    pts.push_back(p.record());
            }
        }
        auto keys = [](const std::vector<Node> &v) {
            std::vector<VoxelKey> o;
            for (auto &n : v)
                o.push_back(n.key);
            return o;
        };
        auto recs = [&](const las::Points &ps) {
            std::vector<std::string> o;
            for (auto &p : const_cast<las::Points &>(ps))
                o.push_back(recOf(*p, m));
            return o;
        };
        REQ(keys(rd.GetNodesWithinBox(box, res)) == within, "nodes within the box");
        REQ(keys(rd.GetNodesIntersectBox(box, res)) == meet, "nodes intersecting the box");
        auto gp = rd.GetPointsWithinBox(box, res);
        auto got = recs(gp);
        REQ(got == pts, "points within the box: " << got.size() << " instead of " << pts.size());
        auto ga = rd.GetAllPoints(res);
        REQ(recs(ga) == all, "all points");
        REQ(gp.PointFormatId() == m.fmt && (int)gp.PointRecordLength() == m.rec() && (int)ga.PointRecordLength() == m.rec(), "format of the result");
    }
}
std::vector<Case> drv::cases{{"spatial", run, 1}};

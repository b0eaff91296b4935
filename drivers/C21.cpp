// C21: chunk accounting and layout
#include "files.hpp"
using namespace drv;
using namespace copc;
static void copcFile(Rng &r)
{
    Scenario s;
    begin(s, r);
    noteModel(s.m);
    int n = s.steps(r, 12);
    for (int i = 0; i < n; i++)
        step(s, r);
    bool viaDtor = r.coin(4);
    if (viaDtor)
        s.w.reset();
    else
        s.w->Close();
    std::string b = s.out.str();
    finishModel(s);
    checkLayout(s, parseFile(b));
    if (!viaDtor)
    {
        s.w->Close();
        REQ(s.out.str() == b, "closing twice changed the file");
        s.w.reset();
        REQ(s.out.str() == b, "destroying the closed writer changed the file");
    }
}
static void lazFile(Rng &r)
{
    Scenario s;
    auto &m = s.m;
    randHeader(m, r);
    m.copc = false;
    m.extended = false;
    auto c = m.items.empty() && m.ebLen ? configUndocumented(m) : configOf(m);
    las::LazConfigWriter cfg{las::LazConfig(static_cast<const CopcConfig &>(c))};
    noteModel(m);
    s.pages.clear();
    {
        laz::LazWriter w(s.out, cfg);
        int n = (int)r.below(8);
        for (int i = 0; i < n; i++)
        {
            MNode nd;
            nd.key = {0, 0, 0, 0};
            randPoints(m, nd, r, 1 + (int)r.below(5), false);
            for (auto &p : nd.pts)
                nd.raw += p.record();
            nd.enc = encodeChunk(nd.raw, m.rec());
            nd.offset = s.out.str().size();
            std::string before = s.out.str();
            int how = (int)r.below(8);
            NOTE("chunk " << nd.pts.size() << " how " << how);
            if (how == 7)
            {
                w.WritePoints(las::Points(m.fmt, m.ebLen));
                REQ(throws([&] { w.WritePointsCompressed(chars(nd.enc), r.coin() ? 0 : -3); }), "non-positive count accepted");
                REQ(throws([&] { las::Points p(m.fmt, m.ebLen + 1); p.AddPoint(p.CreatePoint()); w.WritePoints(p); }), "points of another length accepted");
                REQ(throws([&] { w.WritePoints(pointsOf({RefPoint()}, m.fmt == 6 ? 7 : 6, 0)); }), "points of another format accepted");
                REQ(s.out.str() == before, "a refused write changed the file");
                continue;
            }
            if (how < 4)
                w.WritePoints(pointsOf(nd.pts, m.fmt, m.ebLen));
            else
                w.WritePointsCompressed(chars(nd.enc), (int)nd.pts.size());
            REQ(s.out.str() == before + nd.enc, "chunk bytes");
            s.order.push_back((int)m.nodes.size());
            m.nodes.push_back(nd);
            uint64_t total = 0;
            for (auto &q : m.nodes)
                total += q.pts.size();
            REQ(w.PointCount() == total && w.ChunkCount() == m.nodes.size(), "running counts");
        }
        w.Close();
        std::string b = s.out.str();
        w.Close();
        REQ(s.out.str() == b, "closing twice changed the file");
    }
    auto p = parseFile(s.out.str());
    checkLayout(s, p);
}
std::vector<Case> drv::cases{{"copc", copcFile, 2}, {"laz", lazFile, 1}, {"files", copcWrappers, 1}, {"laz files", lazWrappers, 1}};

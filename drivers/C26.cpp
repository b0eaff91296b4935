// C26: a file read back equals what was written
#include "files.hpp"
using namespace drv;
using namespace copc;
static void checkConfig(const las::LazConfig &c, const FileModel &m)
{
    auto h = c.LasHeader();
    REQ(h.PointFormatId() == m.fmt && h.PointRecordLength() == m.rec(), "format/record length");
    REQ(same(h.Scale(), m.scale) && same(h.Offset(), m.offset) && same(h.min, m.min) && same(h.max, m.max), "scale/offset/bounds");
    REQ(h.GUID() == m.guid && h.SystemIdentifier() == m.sys && h.GeneratingSoftware() == m.soft, "header texts");
    REQ(h.file_source_id == m.source && h.global_encoding == (m.enc | 0x10) && h.creation_day == m.day && h.creation_year == m.year, "header ids");
    for (int i = 0; i < 15; i++)
        REQ(h.points_by_return[i] == m.byReturn[i], "points by return");
    uint64_t total = 0;
    for (auto &n : m.nodes)
        total += n.pts.size();
    REQ(h.PointCount() == total, "point count");
    REQ(c.Wkt() == m.wkt, "WKT");
    auto eb = c.ExtraBytesVlr();
    REQ(eb.items.size() == m.items.size(), "descriptors");
    for (size_t i = 0; i < m.items.size(); i++)
        REQ(sameEb(eb.items[i], m.items[i]), "descriptor " << i);
}
static void checkPts(las::Points ps, const std::vector<RefPoint> &want, const char *what)
{
    REQ(ps.Size() == want.size(), what << ": " << ps.Size() << " points instead of " << want.size());
    size_t i = 0;
    for (auto &p : ps)
        samePoint(*p, want[i++], what);
}
static void copcFile(Rng &r)
{
    Scenario s;
    s.deep = r.coin(3);
    begin(s, r);
    auto &m = s.m;
    noteModel(m);
    int n = s.steps(r, 16);
    for (int i = 0; i < n; i++)
        step(s, r);
    if (r.coin(4))
        s.w.reset();
    else
        s.w->Close();
    finishModel(s);
    std::istringstream in(s.out.str());
    Reader rd(&in);
    auto c = rd.CopcConfig();
    checkConfig(c, m);
    auto i = c.CopcInfo();
    REQ(same(i.center_x, m.center[0]) && same(i.center_y, m.center[1]) && same(i.center_z, m.center[2]) && same(i.halfsize, m.halfsize) && same(i.spacing, m.spacing), "COPC info");
    auto e = c.CopcExtents();
    REQ(e.NumberOfExtents() == m.extents.size() && e.HasExtendedStats() == m.extended, "extents");
    auto ex = e.Extents();
    for (size_t k = 0; k < m.extents.size(); k++)
        REQ(same(ex[k]->minimum, m.extents[k][0]) && same(ex[k]->maximum, m.extents[k][1]) && (!m.extended || (same(ex[k]->mean, m.extents[k][2]) && same(ex[k]->var, m.extents[k][3]))), "extent " << k);
    auto all = rd.GetAllNodes();
    REQ(all.size() == m.nodes.size(), "nodes: " << all.size() << " instead of " << m.nodes.size());
    auto pl = rd.GetPageList();
    REQ(std::set<VoxelKey>(pl.begin(), pl.end()) == s.pages && pl.size() == s.pages.size(), "pages");
    for (auto &nd : all)
    {
        auto *w = m.find(nd.key);
        REQ(w && keyEq(nd.page_key, m.pages[w->page].key), "node " << str(nd.key));
        REQ(strOf(rd.GetPointData(nd)) == w->raw, "data of " << str(nd.key));
        checkPts(rd.GetPoints(nd), w->pts, "points");
    }
    s.w.reset();
}
static void lazFile(Rng &r)
{
    Scenario s;
    auto &m = s.m;
    randHeader(m, r);
    m.copc = false;
    m.extended = false;
    auto c = m.items.empty() && m.ebLen ? configUndocumented(m) : configOf(m);
    las::LazConfigWriter cfg{las::LazConfig(static_cast<const CopcConfig &>(c))};
    noteModel(m);
    std::vector<RefPoint> pts;
    {
        laz::LazWriter w(s.out, cfg);
        int n = (int)r.below(6);
        for (int i = 0; i < n; i++)
        {
            MNode nd;
            nd.key = {0, 0, 0, 0};
            randPoints(m, nd, r, 1 + (int)r.below(9), true);
            for (auto &p : nd.pts)
                nd.raw += p.record();
            if (r.coin())
                w.WritePoints(pointsOf(nd.pts, m.fmt, m.ebLen));
            else
                w.WritePointsCompressed(chars(encodeChunk(nd.raw, m.rec())), (int)nd.pts.size());
            pts.insert(pts.end(), nd.pts.begin(), nd.pts.end());
            m.nodes.push_back(nd);
        }
        if (r.coin())
            w.Close();
    }
    std::istringstream in(s.out.str());
    laz::LazReader rd(&in);
    checkConfig(rd.LazConfig(), m);
    checkPts(rd.GetPoints(), pts, "points");
}
// the length of the extra-byte VLR has 16 bits: what does not fit is refused, the rest comes back
static void manyItems(Rng &r)
{
    static const std::vector<int> counts{100, 340, 341, 342, 343, 400, 682, 683, 1000};
    int n = r.pick(counts);
    bool copc = r.coin();
    NOTE((copc ? "COPC" : "LAZ") << " file with " << n << " extra-byte items");
    las::EbVlr eb(n);
    for (auto &i : eb.items)
    {
        i = randEbField(r);
        i.data_type = r.coin() ? 1 : 3;
    }
    const Vector3 one(1, 1, 1), none(0, 0, 0);
    std::stringstream out;
    bool refused = false;
    try
    {
        if (copc)
        {
            Writer w(out, CopcConfigWriter(7, one, none, "", eb));
            w.Close();
        }
        else
        {
            laz::LazWriter w(out, las::LazConfigWriter(7, one, none, "", eb));
            w.Close();
        }
    }
    catch (const std::exception &)
    {
        refused = true;
    }
    REQ(refused == (n > 341), (refused ? "refused" : "accepted"));
    if (refused)
        return;
    std::istringstream in(out.str());
    las::EbVlr back;
    if (copc)
    {
        Reader rd(&in);
        back = rd.CopcConfig().ExtraBytesVlr();
    }
    else
    {
        laz::LazReader rd(&in);
        back = rd.LazConfig().ExtraBytesVlr();
    }
    REQ(back.items.size() == eb.items.size(), "descriptors");
    for (size_t i = 0; i < eb.items.size(); i++)
        REQ(sameEb(back.items[i], eb.items[i]), "descriptor " << i);
}
std::vector<Case> drv::cases{{"many items", manyItems, 1}, {"copc", copcFile, 3}, {"laz", lazFile, 1}, {"files", copcWrappers, 1}, {"laz files", lazWrappers, 1}};

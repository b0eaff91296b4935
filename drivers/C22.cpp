// C22: hierarchy serialisation at close
#include "files.hpp"
using namespace drv;
using namespace copc;
static void close(Rng &r)
{
    Scenario s;
    s.deep = r.coin();
    begin(s, r);
    noteModel(s.m);
    int n = s.steps(r, 30);
    for (int i = 0; i < n; i++)
        step(s, r);
    s.w->Close();
    finishModel(s);
    auto p = parseFile(s.out.str());
    checkHierarchy(s, p);
    auto *info = findVlr(p, "copc", 1);
    uint64_t ro = le<uint64_t>(info->payload, 40), rs = le<uint64_t>(info->payload, 48);
    REQ(rs == 32 * (s.m.pages[0].nodes.size() + s.m.pages[0].subs.size()), "root page size");
    auto h = parseHierarchy(p);
    std::map<VoxelKey, uint64_t> off;
    off[{0, 0, 0, 0}] = ro;
    for (auto &e : h)
        for (auto &q : e.second)
            if (q.count == -1)
                off[q.key] = q.offset;
    for (auto &e : h)
        for (auto &q : e.second)
            if (q.count == -1)
                REQ(q.offset < off[e.first], "sub-page " << str(q.key) << " written after its parent " << str(e.first));
    // read it back with the library
    std::istringstream in(s.out.str());
    Reader rd(&in);
    auto all = rd.GetAllNodes();
    REQ(all.size() == s.m.nodes.size(), "nodes read back");
    for (auto &n : all)
    {
        auto *w = s.m.find(n.key);
        REQ(w && n.offset == w->offset && n.byte_size == (int32_t)w->enc.size() && n.point_count == (int32_t)w->pts.size() && keyEq(n.page_key, s.m.pages[w->page].key), "node " << str(n.key) << " read back");
    }
    auto pl = rd.GetPageList();
    REQ(std::set<VoxelKey>(pl.begin(), pl.end()) == s.pages && pl.size() == s.pages.size(), "pages read back");
    s.w.reset();
}
std::vector<Case> drv::cases{{"close", close, 1}, {"files", copcWrappers, 1}};

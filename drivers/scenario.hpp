// Random histories of writer operations, run on the real Writer and on a plain model.
#pragma once
#include "iofile.hpp"
namespace drv
{
struct Scenario
{
    FileModel m; // nodes: expected; page index refers to pages
    std::map<copc::VoxelKey, copc::VoxelKey> pageOf;
    std::set<copc::VoxelKey> pages{{0, 0, 0, 0}};
    std::vector<int> order; // node index of each chunk
    std::stringstream out;
    std::unique_ptr<copc::Writer> w;
    bool deep{false};
    bool fan{false}; // many pages side by side
    int steps(Rng &r, int n) { fan = r.coin(10); return fan ? 25 + (int)r.below(15) : (int)r.below(n); }
};
inline copc::CopcConfigWriter configOf(const FileModel &m)
{
    copc::CopcConfigWriter c(m.fmt, m.scale, m.offset, m.wkt, ebVlrOf(m.items), m.extended);
    auto h = c.LasHeader();
    h->min = m.min;
    h->max = m.max;
    h->GUID(m.guid);
    h->SystemIdentifier(m.sys);
    h->GeneratingSoftware(m.soft);
    h->file_source_id = m.source;
    h->global_encoding = m.enc;
    h->creation_day = m.day;
    h->creation_year = m.year;
    for (int i = 0; i < 15; i++)
        h->points_by_return[i] = m.byReturn[i];
    auto i = c.CopcInfo();
    i->center_x = m.center[0], i->center_y = m.center[1], i->center_z = m.center[2];
    i->halfsize = m.halfsize, i->spacing = m.spacing;
    auto ex = c.CopcExtents()->Extents();
    for (size_t k = 0; k < m.extents.size(); k++)
    {
        ex[k]->minimum = m.extents[k][0], ex[k]->maximum = m.extents[k][1];
        ex[k]->mean = m.extents[k][2], ex[k]->var = m.extents[k][3];
    }
    return c;
}
// a configuration for a file whose records have extra bytes no descriptor documents
inline copc::CopcConfigWriter configUndocumented(const FileModel &m)
{
    auto c = configOf(m);
    const auto &cc = c;
    copc::las::LasHeader h(cc.LasHeader(), (int8_t)m.fmt, (uint16_t)m.rec(), m.scale, m.offset);
    return copc::CopcConfigWriter(h, cc.CopcInfo(), cc.CopcExtents(), cc.Wkt(), cc.ExtraBytesVlr());
}
inline void begin(Scenario &s, Rng &r, bool undocumented = true)
{
    randHeader(s.m, r);
    s.m.hasExtents = true;
    if (s.m.items.empty() && !undocumented)
        s.m.ebLen = 0;
    if (s.m.items.empty() && s.m.ebLen)
        s.w.reset(new copc::Writer(s.out, configUndocumented(s.m)));
    else
        s.w.reset(new copc::Writer(s.out, configOf(s.m)));
}
inline copc::VoxelKey up(const copc::VoxelKey &k, int n)
{
    copc::VoxelKey p = k;
    while (n-- > 0 && p.d > 0)
        p = {p.d - 1, p.x / 2, p.y / 2, p.z / 2};
    return p;
}
inline void checkBookkeeping(Scenario &s, const char *when)
{
    auto &h = *s.w->hierarchy_;
    REQ(h.loaded_nodes_.size() == s.m.nodes.size(), when << ": " << h.loaded_nodes_.size() << " nodes known instead of " << s.m.nodes.size());
    for (auto &n : s.m.nodes)
    {
        auto it = h.loaded_nodes_.find(n.key);
        REQ(it != h.loaded_nodes_.end(), when << ": node " << str(n.key) << " unknown");
        auto &e = *it->second;
        REQ(keyEq(e.key, n.key) && e.offset == n.offset && e.byte_size == (int32_t)n.enc.size() && e.point_count == (int32_t)n.pts.size(), when << ": node " << str(n.key) << " offset/size/count");
        REQ(keyEq(e.page_key, s.pageOf[n.key]), when << ": node " << str(n.key) << " page " << str(e.page_key) << " instead of " << str(s.pageOf[n.key]));
        auto f = s.w->FindNode(n.key);
        REQ(f == e, when << ": FindNode");
    }
    REQ(h.seen_pages_.size() == s.pages.size(), when << ": " << h.seen_pages_.size() << " pages instead of " << s.pages.size());
    for (auto &k : s.pages)
    {
        auto it = h.seen_pages_.find(k);
        REQ(it != h.seen_pages_.end() && it->second && keyEq(it->second->key, k) && it->second->loaded, when << ": page " << str(k));
        size_t want = 0;
        for (auto &n : s.m.nodes)
        {
            bool in = keyEq(s.pageOf[n.key], k);
            want += in;
            auto jt = it->second->nodes.find(n.key);
            REQ((jt != it->second->nodes.end()) == in, when << ": node " << str(n.key) << " listed in page " << str(k) << ": " << !in);
            if (in)
                REQ(jt->second.get() == h.loaded_nodes_[n.key].get(), when << ": node identity");
        }
        REQ(it->second->nodes.size() == want, when << ": page " << str(k) << " lists " << it->second->nodes.size() << " nodes");
    }
}
inline void dropPage(Scenario &s, const copc::VoxelKey &p)
{
    if (p.d == 0)
        return;
    for (auto &q : s.pageOf)
        if (keyEq(q.second, p))
            return;
    s.pages.erase(p);
}
inline void step(Scenario &s, Rng &r)
{
    using namespace copc;
    auto &m = s.m;
    auto freshKey = [&]() {
        if (s.fan)
            for (int t = 0; t < 50; t++)
            {
                VoxelKey k = childOf({0, 0, 0, 0}, (int)r.below(8));
                k = childOf(k, (int)r.below(8));
                if (r.coin())
                    k = childOf(k, (int)r.below(8));
                if (!m.find(k))
                    return k;
            }
        for (int t = 0;; t++)
        {
            VoxelKey k{0, 0, 0, 0};
            if (!m.nodes.empty() && r.coin())
                k = r.pick(m.nodes).key;
            int n = (int)r.below(4) + t / 4 + (s.deep && r.coin(6) ? (int)r.below(15) : 0);
            for (int i = 0; i < n && k.d < 29; i++)
                k = childOf(k, (int)r.below(8));
            if (!m.find(k))
                return k;
        }
    };
    int op = (int)r.below(10);
    std::string before = s.out.str();
    auto refused = [&](const char *what, std::function<void()> f) {
        NOTE("refuse: " << what);
        REQ(throws(f), what << " was accepted");
        REQ(s.out.str() == before, what << " changed the file");
        checkBookkeeping(s, what);
    };
    if (op < 6)
    {
        MNode n;
        n.key = freshKey();
        VoxelKey page = r.coin() ? VoxelKey{0, 0, 0, 0} : up(n.key, (int)r.below(4));
        if (s.fan && !r.coin(4))
            page = up(n.key, (int)r.below(2));
        int cnt = 1 + (int)r.below(4);
        if (r.coin(25))
            cnt = 200;
        randPoints(m, n, r, cnt, r.coin());
        for (auto &p : n.pts)
            n.raw += p.record();
        n.enc = encodeChunk(n.raw, m.rec());
        n.offset = before.size();
        int how = (int)r.below(3);
        NOTE((how == 0 ? "add points " : how == 1 ? "add data " : "add compressed ") << str(n.key) << "#" << cnt << " to page " << str(page));
        Node got;
        bool def = page.d == 0 && r.coin();
        if (how == 0)
        {
            auto ps = pointsOf(n.pts, m.fmt, m.ebLen);
            got = def ? s.w->AddNode(n.key, ps) : s.w->AddNode(n.key, ps, page);
        }
        else if (how == 1)
            got = def ? s.w->AddNode(n.key, chars(n.raw)) : s.w->AddNode(n.key, chars(n.raw), page);
        else
            got = def ? s.w->AddNodeCompressed(n.key, chars(n.enc), cnt) : s.w->AddNodeCompressed(n.key, chars(n.enc), cnt, page);
        REQ(keyEq(got.key, n.key) && got.offset == n.offset && got.byte_size == (int32_t)n.enc.size() && got.point_count == cnt && keyEq(got.page_key, page), "returned node " << str(got.key) << " offset " << got.offset << " size " << got.byte_size << " count " << got.point_count);
        REQ(s.out.str() == before + n.enc, "data of node " << str(n.key) << " in the file");
        s.pageOf[n.key] = page;
        s.pages.insert(page);
        s.order.push_back((int)m.nodes.size());
        m.nodes.push_back(n);
        checkBookkeeping(s, "after adding a node");
    }
    else if (op < 8 && !m.nodes.empty())
    {
        auto k = r.pick(m.nodes).key;
        auto page = up(k, (int)r.below(5));
        NOTE("move " << str(k) << " to page " << str(page));
        s.w->ChangeNodePage(k, page);
        auto old = s.pageOf[k];
        s.pageOf[k] = page;
        s.pages.insert(page);
        if (!keyEq(old, page))
            dropPage(s, old);
        REQ(s.out.str() == before, "moving a node changed the file");
        checkBookkeeping(s, "after moving a node");
    }
    else
    {
        auto k = freshKey();
        std::vector<RefPoint> one;
        MNode n;
        n.key = k;
        randPoints(m, n, r, 1, false);
        auto good = pointsOf(n.pts, m.fmt, m.ebLen);
        auto raw = chars(n.pts[0].record());
        VoxelKey notAnc = k;
        notAnc.d == 0 ? (void)(notAnc = VoxelKey{1, 1, 0, 0}) : (void)(r.coin() ? (notAnc.x ^= 1) : (notAnc = childOf(k, 3), 0));
        VoxelKey bad = r.coin() ? VoxelKey::InvalidKey() : VoxelKey{k.d, -1, k.y, k.z};
        switch (r.below(14))
        {
        case 0: refused("an invalid node key", [&] { s.w->AddNode(bad, good); }); break;
        case 1: refused("an invalid page key", [&] { s.w->AddNode(k, good, bad); }); break;
        case 2: refused("a page that is no ancestor", [&] { s.w->AddNode(k, good, notAnc); }); break;
        case 3: refused("a page that is no ancestor (data)", [&] { s.w->AddNode(k, raw, notAnc); }); break;
        case 4: refused("a page that is no ancestor (compressed)", [&] { s.w->AddNodeCompressed(k, raw, 1, notAnc); }); break;
        case 5: refused("empty points", [&] { s.w->AddNode(k, las::Points(m.fmt, m.ebLen)); }); break;
        case 6: refused("empty data", [&] { s.w->AddNode(k, std::vector<char>()); }); break;
        case 7: refused("ill-sized data", [&] { auto d = raw; if (r.coin()) d.pop_back(); else d.push_back(1); s.w->AddNode(k, d); }); break;
        case 8: refused("points of another format", [&] { s.w->AddNode(k, pointsOf({RefPoint()}, m.fmt == 6 ? 7 : 6, 0)); }); break;
        case 9: refused("points of another length", [&] { las::Points p(m.fmt, m.ebLen + 1); p.AddPoint(p.CreatePoint()); s.w->AddNode(k, p); }); break;
        case 10: refused("a non-positive count", [&] { s.w->AddNodeCompressed(k, raw, r.coin() ? 0 : -(int32_t)r.range(1, INT32_MAX)); }); break;
        case 11: refused("moving an unknown node", [&] { s.w->ChangeNodePage(k, {0, 0, 0, 0}); }); break;
        case 12: refused("moving an invalid node", [&] { s.w->ChangeNodePage(bad, {0, 0, 0, 0}); }); break;
        default:
            if (!m.nodes.empty())
            {
                auto q = r.pick(m.nodes).key;
                VoxelKey na = q;
                na.d == 0 ? (void)(na = VoxelKey{1, 0, 0, 1}) : (void)(r.coin() ? (na.z ^= 1) : (na = childOf(q, 0), 0));
                if (r.coin(3))
                    na = VoxelKey::InvalidKey();
                refused("moving to an unsuitable page", [&] { s.w->ChangeNodePage(q, na); });
            }
        }
    }
}
// hierarchy part of the model from pageOf
inline void finishModel(Scenario &s)
{
    auto &m = s.m;
    m.pages.clear();
    m.pages.push_back({{0, 0, 0, 0}, {}, {}, 0, 0, -1});
    for (auto &k : s.pages)
        if (k.d)
            m.pages.push_back({k, {}, {}, 0, 0, -1});
    for (size_t i = 0; i < m.nodes.size(); i++)
    {
        m.nodes[i].page = m.findPage(s.pageOf[m.nodes[i].key]);
        m.pages[m.nodes[i].page].nodes.push_back((int)i);
    }
    for (size_t i = 1; i < m.pages.size(); i++)
    {
        int best = 0;
        for (size_t j = 0; j < m.pages.size(); j++)
            if (j != i && isAncestorOrSelf(m.pages[j].key, m.pages[i].key) && m.pages[j].key.d >= m.pages[best].key.d)
                best = (int)j;
        m.pages[i].parent = best;
        m.pages[best].subs.push_back((int)i);
    }
}
inline void checkLayout(const Scenario &s, const Parsed &p)
{
    auto &m = s.m;
    uint64_t total = 0;
    REQ(p.chunks.size() == s.order.size(), "chunk table has " << p.chunks.size() << " chunks instead of " << s.order.size());
    for (size_t i = 0; i < s.order.size(); i++)
    {
        auto &n = m.nodes[s.order[i]];
        REQ(p.chunks[i].first == n.pts.size() && p.chunks[i].second == n.enc.size() && p.chunkPos[i] == n.offset, "chunk " << i << ": count " << p.chunks[i].first << " length " << p.chunks[i].second << " position " << p.chunkPos[i] << " vs " << n.pts.size() << " " << n.enc.size() << " " << n.offset);
        REQ(p.b.compare(n.offset, n.enc.size(), n.enc) == 0, "bytes of chunk " << i);
        total += n.pts.size();
    }
    REQ(p.pointCount == total && p.legacyCount == total, "point count " << p.pointCount << " instead of " << total);
    for (auto x : p.legacyByReturn)
        REQ(x == 0, "legacy points by return");
    REQ(p.vlrEnd == p.pointOffset, "point data offset " << p.pointOffset << " but header and VLRs end at " << p.vlrEnd);
    REQ(p.compressed && p.fmt == m.fmt && p.recLen == m.rec(), "format and record length");
    auto *wkt = findVlr(p, "LASF_Projection", 2112);
    REQ(!!wkt == !m.wkt.empty(), "WKT record present: " << !!wkt);
    if (wkt)
        REQ(wkt->evlr && wkt->payload == m.wkt, "WKT record");
    REQ(p.evlrOffset == p.tableEnd || p.evlrCount == 0, "EVLRs start at " << p.evlrOffset << ", chunk table ends at " << p.tableEnd);
    REQ(p.evlrCount == 0 ? p.b.size() == p.tableEnd : p.fileEnd == p.b.size(), "file length " << p.b.size() << ", records end at " << p.fileEnd);
    REQ(p.evlrCount == (m.copc ? s.pages.size() : 0) + !m.wkt.empty(), "EVLR count " << p.evlrCount);
    uint32_t vc = 1 + !m.items.empty() + (m.copc ? 2 + m.extended : 0);
    REQ(p.vlrCount == vc, "VLR count " << p.vlrCount << " instead of " << vc);
    auto *laz = findVlr(p, "laszip encoded", 22204);
    REQ(laz && !laz->evlr, "LAZ VLR");
    auto *eb = findVlr(p, "LASF_Spec", 4);
    REQ(!!eb == !m.items.empty(), "extra-byte VLR present: " << !!eb);
    if (eb)
    {
        std::string want;
        for (auto &f : m.items)
            want += ebBytes(f);
        REQ(eb->payload == want, "extra-byte VLR payload");
    }
    // header
    double sc[3] = {m.scale.x, m.scale.y, m.scale.z}, of[3] = {m.offset.x, m.offset.y, m.offset.z}, mn[3] = {m.min.x, m.min.y, m.min.z}, mx[3] = {m.max.x, m.max.y, m.max.z};
    for (int a = 0; a < 3; a++)
        REQ(same(p.scale[a], sc[a]) && same(p.offset[a], of[a]) && same(p.min[a], mn[a]) && same(p.max[a], mx[a]), "scale/offset/bounds axis " << a);
    REQ(p.guid == m.guid && p.sys == m.sys && p.soft == m.soft && p.source == m.source && p.enc == (m.enc | 0x10) && p.day == m.day && p.year == m.year, "header fields");
    for (int i = 0; i < 15; i++)
        REQ(p.byReturn[i] == m.byReturn[i], "points by return");
    if (m.copc)
    {
        auto *info = findVlr(p, "copc", 1);
        REQ(info && info->pos == 375 && !info->evlr && info->payload.size() == 160, "info VLR first");
        for (int i = 0; i < 3; i++)
            REQ(same(led(info->payload, 8 * i), m.center[i]), "info centre");
        REQ(same(led(info->payload, 24), m.halfsize) && same(led(info->payload, 32), m.spacing) && same(led(info->payload, 56), m.extents[13][0]) && same(led(info->payload, 64), m.extents[13][1]), "info fields");
        auto *ex = findVlr(p, "copc", 10000);
        REQ(ex && ex->payload.size() == 16 * m.extents.size(), "extents VLR");
        auto *xs = findVlr(p, "rock_robotic", 10001);
        REQ(!!xs == m.extended && (!xs || xs->payload.size() == 16 * m.extents.size()), "extended stats VLR");
        for (size_t i = 0; i < m.extents.size(); i++)
        {
            REQ(same(led(ex->payload, 16 * i), m.extents[i][0]) && same(led(ex->payload, 16 * i + 8), m.extents[i][1]), "extent " << i);
            if (xs)
                REQ(same(led(xs->payload, 16 * i), m.extents[i][2]) && same(led(xs->payload, 16 * i + 8), m.extents[i][3]), "extended extent " << i);
        }
    }
}
inline void checkHierarchy(const Scenario &s, const Parsed &p)
{
    auto &m = s.m;
    auto h = parseHierarchy(p);
    REQ(h.size() == m.pages.size(), "hierarchy has " << h.size() << " pages instead of " << m.pages.size());
    int hev = 0;
    for (auto &v : p.vlrs)
        hev += v.user == "copc" && v.id == 1000;
    REQ(hev == (int)m.pages.size(), "number of hierarchy EVLRs " << hev);
    for (auto &pg : m.pages)
    {
        auto it = h.find(pg.key);
        REQ(it != h.end(), "page " << str(pg.key) << " not reachable");
        REQ(it->second.size() == pg.nodes.size() + pg.subs.size(), "page " << str(pg.key) << " has " << it->second.size() << " entries");
        for (int i : pg.nodes)
        {
            int c = 0;
            for (auto &e : it->second)
                if (keyEq(e.key, m.nodes[i].key) && e.count != -1)
                {
                    c++;
                    REQ(e.offset == m.nodes[i].offset && e.size == (int32_t)m.nodes[i].enc.size() && e.count == (int32_t)m.nodes[i].pts.size(), "entry of node " << str(e.key));
                }
            REQ(c == 1, "node " << str(m.nodes[i].key) << " has " << c << " entries in page " << str(pg.key));
        }
        for (int i : pg.subs)
        {
            int c = 0;
            for (auto &e : it->second)
                c += keyEq(e.key, m.pages[i].key) && e.count == -1;
            REQ(c == 1, "sub-page " << str(m.pages[i].key) << " has " << c << " entries in page " << str(pg.key));
        }
    }
}
} // namespace drv

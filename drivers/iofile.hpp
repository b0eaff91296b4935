// Independent byte-level builder and parser of COPC / LAZ files (layout from the LAS 1.4 and COPC 1.0
// tables; chunk payload = the stand-in codec).  Shares no code with copc-lib.
#pragma once
#include "common.hpp"
namespace drv
{
inline bool keyEq(const copc::VoxelKey &a, const copc::VoxelKey &b)
{
    return a.d == b.d && a.x == b.x && a.y == b.y && a.z == b.z;
}
inline bool isAncestorOrSelf(const copc::VoxelKey &a, const copc::VoxelKey &k)
{
    if (a.d > k.d)
        return false;
    int s = std::min(k.d - a.d, 31);
    return (k.x >> s) == a.x && (k.y >> s) == a.y && (k.z >> s) == a.z;
}
inline std::string encodeChunk(const std::string &raw, int rec)
{
    std::string o;
    uint32_t n = raw.size() / rec;
    for (uint32_t k = 0; k < n; k++)
        for (int i = 0; i < rec; i++)
            o.push_back((char)((uint8_t)raw[k * rec + i] ^ (uint8_t)(0x5a + 7 * k + i)));
    Bytes t;
    t.le<uint32_t>(0xC0FFEE01u).le<uint32_t>(n);
    return o + t.s;
}
inline std::string decodeChunk(const std::string &enc, int rec, uint32_t n)
{
    std::string o;
    for (uint32_t k = 0; k < n; k++)
        for (int i = 0; i < rec; i++)
            o.push_back((char)((uint8_t)enc.at(k * rec + i) ^ (uint8_t)(0x5a + 7 * k + i)));
    return o;
}
struct VlrModel
{
    uint16_t reserved{};
    std::string user, desc, payload;
    uint16_t id{};
    bool evlr{};
    uint64_t pos{};
    std::string bytes() const
    {
        Bytes b;
        b.le(reserved).str(user, 16).le(id);
        if (evlr)
            b.le<uint64_t>(payload.size());
        else
            b.le<uint16_t>((uint16_t)payload.size());
        b.str(desc, 32).raw(payload);
        return b.s;
    }
    int headerSize() const { return evlr ? 60 : 54; }
};
inline std::string ebBytes(const copc::las::EbVlr::ebfield &f)
{
    Bytes b;
    b.le(f.reserved[0]).le(f.reserved[1]).le(f.data_type).le(f.options).str(f.name, 32);
    for (int i = 0; i < 4; i++)
        b.le(f.unused[i]);
    for (int i = 0; i < 3; i++)
        b.le(f.no_data[i]);
    for (int i = 0; i < 3; i++)
        b.le(f.minval[i]);
    for (int i = 0; i < 3; i++)
        b.le(f.maxval[i]);
    for (int i = 0; i < 3; i++)
        b.d(f.scale[i]);
    for (int i = 0; i < 3; i++)
        b.d(f.offset[i]);
    b.str(f.description, 32);
    return b.s;
}
inline int ebTypeSize(int t, int options)
{
    static const int one[] = {0, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
    if (t == 0)
        return options;
    return t <= 10 ? one[t] : t <= 20 ? 2 * one[t - 10] : 3 * one[t - 20];
}
inline copc::las::EbVlr::ebfield randEbField(Rng &r, bool small = true)
{
    copc::las::EbVlr::ebfield f;
    f.data_type = r.coin(4) ? 0 : (uint8_t)r.range(1, small ? 10 : 30);
    f.options = f.data_type == 0 ? (uint8_t)r.range(0, small ? 6 : 255) : (uint8_t)r.below(256);
    f.reserved[0] = (uint8_t)r.below(256);
    f.reserved[1] = (uint8_t)r.below(256);
    f.name = anyString(r, 32);
    f.description = anyString(r, 32);
    for (int i = 0; i < 3; i++)
    {
        f.no_data[i] = r.u64();
        f.minval[i] = r.u64();
        f.maxval[i] = r.u64();
        f.scale[i] = modest(r);
        f.offset[i] = modest(r);
    }
    return f;
}
inline bool sameEb(const copc::las::EbVlr::ebfield &a, const copc::las::EbVlr::ebfield &b)
{
    return ebBytes(a) == ebBytes(b);
}
struct MNode
{
    copc::VoxelKey key;
    std::vector<RefPoint> pts;
    std::string raw, enc;
    uint64_t offset{};
    int page{};
};
struct MPage
{
    copc::VoxelKey key;
    std::vector<int> nodes, subs;
    uint64_t offset{};
    int32_t size{};
    int parent{-1};
};
struct FileModel
{
    int fmt{6};
    bool copc{true};
    std::vector<copc::las::EbVlr::ebfield> items;
    bool writeEbVlr{true};
    int ebLen{0};
    copc::Vector3 scale{0.01, 0.01, 0.01}, offset{0, 0, 0}, min{0, 0, 0}, max{100, 100, 100};
    std::string wkt, guid, sys, soft;
    uint16_t source{}, enc{0x10}, day{}, year{};
    uint64_t byReturn[15]{};
    bool hasExtents{true}, extended{false};
    std::vector<std::array<double, 4>> extents;
    double center[3]{}, halfsize{50}, spacing{10}, gpsMin{}, gpsMax{};
    std::vector<MNode> nodes;
    std::vector<MPage> pages; // pages[0] is the root
    std::vector<VlrModel> vlrs; // as laid out (positions filled by build)
    std::vector<int> chunkOrder;
    uint64_t pointOffset{}, chunkTable{}, evlrOffset{}, pointCount{};
    uint32_t vlrCount{}, evlrCount{};
    std::string bytes;
    int rec() const { return baseSize(fmt) + ebLen; }
    int slots() const { return baseDims(fmt) + (int)items.size(); }
    const MNode *find(const copc::VoxelKey &k) const
    {
        for (auto &n : nodes)
            if (keyEq(n.key, k))
                return &n;
        return nullptr;
    }
    int findPage(const copc::VoxelKey &k) const
    {
        for (size_t i = 0; i < pages.size(); i++)
            if (keyEq(pages[i].key, k))
                return (int)i;
        return -1;
    }
};
inline VlrModel mk(const std::string &u, uint16_t id, const std::string &d, const std::string &p, bool e)
{
    VlrModel v;
    v.user = u;
    v.id = id;
    v.desc = d;
    v.payload = p;
    v.evlr = e;
    return v;
}
struct BuildOpts
{
    bool shuffle{true};    // arbitrary VLR order after the info VLR, records as VLR or EVLR
    bool noise{true};      // unrelated VLRs
    bool oneHierarchy{false};
    bool infoElsewhere{false}, noInfo{false}, noHierarchy{false};
};
inline void buildFile(FileModel &m, Rng &r, const BuildOpts &o)
{
    for (auto &n : m.nodes)
    {
        n.raw.clear();
        for (auto &p : n.pts)
            n.raw += p.record();
        n.enc = n.pts.empty() ? std::string() : encodeChunk(n.raw, m.rec());
    }
    std::string eb;
    for (auto &f : m.items)
        eb += ebBytes(f);
    Bytes ext, xst;
    for (auto &e : m.extents)
    {
        ext.d(e[0]).d(e[1]);
        xst.d(e[2]).d(e[3]);
    }
    std::string lazp(34 + 6 * (1 + (m.fmt >= 7) + (m.ebLen > 0)), '\0');
    std::vector<VlrModel> v, ev;
    auto put = [&](VlrModel x, bool defEvlr) {
        x.evlr = o.shuffle ? r.coin() : defEvlr;
        (x.evlr ? ev : v).push_back(x);
    };
    if (m.hasExtents && m.copc)
    {
        put(mk("copc", 10000, "COPC extents", ext.s, false), false);
        if (m.extended)
            put(mk("rock_robotic", 10001, "COPC extended stats", xst.s, false), false);
    }
    if (!m.items.empty() && m.writeEbVlr)
        put(mk("LASF_Spec", 4, "", eb, false), false);
    if (!m.wkt.empty())
        put(mk("LASF_Projection", 2112, "", m.wkt, true), true);
    v.push_back(mk("laszip encoded", 22204, "lazperf variant", lazp, false));
    if (o.noise)
    {
        static const std::vector<std::pair<std::string, int>> near{{"copc", 2}, {"COPC", 1}, {"LASF_Projection", 2111}, {"LASF_Spec", 5}, {"LASF_Spec", 2112}, {"copc", 4}, {"rock_robotic", 10000}, {"LASF_Projection", 4}, {"copc ", 1000}, {"other", 10001}};
        int k = r.below(4);
        for (int i = 0; i < k; i++)
        {
            auto &n = r.pick(near);
            auto x = mk(n.first, n.second, anyString(r, 32), std::string(r.below(300), 'z'), false);
            x.reserved = (uint16_t)r.u64();
            put(x, r.coin());
        }
    }
    if (o.shuffle)
    {
        for (size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[r.below(i)]);
        for (size_t i = ev.size(); i > 1; i--)
            std::swap(ev[i - 1], ev[r.below(i)]);
    }
    VlrModel info = mk("copc", 1, "COPC info VLR", std::string(160, '\0'), false);
    if (m.copc && !o.noInfo)
    {
        if (o.infoElsewhere)
            v.insert(v.begin() + 1, info);
        else
            v.insert(v.begin(), info);
    }
    // layout
    uint64_t pos = 375;
    for (auto &x : v)
    {
        x.pos = pos;
        pos += x.bytes().size();
    }
    m.pointOffset = pos + (r.coin(3) ? r.below(40) : 0);
    pos = m.pointOffset + 8;
    m.chunkOrder.clear();
    for (size_t i = 0; i < m.nodes.size(); i++)
        if (!m.nodes[i].pts.empty())
            m.chunkOrder.push_back((int)i);
        else
            m.nodes[i].offset = 0;
    for (size_t i = m.chunkOrder.size(); i > 1; i--)
        std::swap(m.chunkOrder[i - 1], m.chunkOrder[r.below(i)]);
    std::string data;
    m.pointCount = 0;
    Bytes table;
    table.le<uint32_t>(0).le<uint32_t>((uint32_t)m.chunkOrder.size());
    for (int i : m.chunkOrder)
    {
        auto &n = m.nodes[i];
        n.offset = pos;
        data += n.enc;
        pos += n.enc.size();
        m.pointCount += n.pts.size();
        table.le<uint64_t>(n.pts.size()).le<uint64_t>(n.enc.size());
    }
    m.chunkTable = pos;
    pos += table.s.size();
    m.evlrOffset = pos;
    // hierarchy EVLRs: positions first, then contents (pages in arbitrary file order)
    std::vector<VlrModel> hv;
    if (m.copc && !o.noHierarchy)
    {
        std::vector<int> order;
        for (size_t i = 0; i < m.pages.size(); i++)
        {
            order.push_back((int)i);
            m.pages[i].size = 32 * (int)(m.pages[i].nodes.size() + m.pages[i].subs.size());
        }
        for (size_t i = order.size(); i > 1; i--)
            std::swap(order[i - 1], order[r.below(i)]);
        std::vector<std::vector<int>> groups;
        if (o.oneHierarchy)
            groups.push_back(order);
        else
            for (int i : order)
                groups.push_back({i});
        std::vector<size_t> where;
        for (size_t g = 0; g < groups.size(); g++)
        {
            std::string p;
            for (int i : groups[g])
                p += std::string(m.pages[i].size, '\0');
            size_t at = r.below(ev.size() + 1);
            auto x = mk("copc", 1000, "hier" + std::to_string(g), p, true);
            x.reserved = 0;
            ev.insert(ev.begin() + at, x);
        }
        uint64_t q = pos;
        for (auto &x : ev)
        {
            x.pos = q;
            q += x.bytes().size();
        }
        for (size_t g = 0; g < groups.size(); g++)
            for (auto &x : ev)
                if (x.id == 1000 && x.desc == "hier" + std::to_string(g))
                {
                    uint64_t a = x.pos + 60;
                    for (int i : groups[g])
                    {
                        m.pages[i].offset = a;
                        a += m.pages[i].size;
                    }
                }
        for (size_t g = 0; g < groups.size(); g++)
            for (auto &x : ev)
                if (x.id == 1000 && x.desc == "hier" + std::to_string(g))
                {
                    Bytes b;
                    for (int i : groups[g])
                    {
                        std::vector<std::string> ent;
                        for (int ni : m.pages[i].nodes)
                        {
                            auto &n = m.nodes[ni];
                            Bytes e;
                            e.le(n.key.d).le(n.key.x).le(n.key.y).le(n.key.z).le<uint64_t>(n.offset).le<int32_t>((int32_t)n.enc.size()).le<int32_t>((int32_t)n.pts.size());
                            ent.push_back(e.s);
                        }
                        for (int si : m.pages[i].subs)
                        {
                            auto &n = m.pages[si];
                            Bytes e;
                            e.le(n.key.d).le(n.key.x).le(n.key.y).le(n.key.z).le<uint64_t>(n.offset).le<int32_t>(n.size).le<int32_t>(-1);
                            ent.push_back(e.s);
                        }
                        for (size_t k = ent.size(); k > 1; k--)
                            std::swap(ent[k - 1], ent[r.below(k)]);
                        for (auto &e : ent)
                            b.raw(e);
                    }
                    x.payload = b.s;
                }
    }
    else
        for (auto &x : ev)
        {
            x.pos = pos;
            pos += x.bytes().size();
        }
    Bytes inf;
    inf.d(m.center[0]).d(m.center[1]).d(m.center[2]).d(m.halfsize).d(m.spacing);
    inf.le<uint64_t>(m.pages.empty() ? 0 : m.pages[0].offset).le<uint64_t>(m.pages.empty() ? 0 : m.pages[0].size);
    inf.d(m.gpsMin).d(m.gpsMax).str("", 88);
    for (auto &x : v)
        if (x.user == "copc" && x.id == 1)
            x.payload = inf.s;
    m.vlrCount = (uint32_t)v.size();
    m.evlrCount = (uint32_t)ev.size();
    Bytes h;
    h.str("LASF", 4).le(m.source).le(m.enc).str(m.guid, 16).le<uint8_t>(1).le<uint8_t>(4).str(m.sys, 32).str(m.soft, 32).le(m.day).le(m.year);
    h.le<uint16_t>(375).le<uint32_t>((uint32_t)m.pointOffset).le<uint32_t>(m.vlrCount).le<uint8_t>((uint8_t)(m.fmt | 0x80)).le<uint16_t>((uint16_t)m.rec());
    h.le<uint32_t>((uint32_t)m.pointCount).str("", 20);
    h.d(m.scale.x).d(m.scale.y).d(m.scale.z).d(m.offset.x).d(m.offset.y).d(m.offset.z);
    h.d(m.max.x).d(m.min.x).d(m.max.y).d(m.min.y).d(m.max.z).d(m.min.z);
    h.le<uint64_t>(0).le<uint64_t>(ev.empty() ? 0 : m.evlrOffset).le<uint32_t>(m.evlrCount).le<uint64_t>(m.pointCount);
    for (int i = 0; i < 15; i++)
        h.le<uint64_t>(m.byReturn[i]);
    std::string out = h.s;
    m.vlrs.clear();
    for (auto &x : v)
    {
        out += x.bytes();
        m.vlrs.push_back(x);
    }
    out.resize(m.pointOffset, '\0');
    Bytes ct;
    ct.le<uint64_t>(m.chunkTable);
    out += ct.s + data + table.s;
    for (auto &x : ev)
    {
        out += x.bytes();
        m.vlrs.push_back(x);
    }
    if (ev.empty())
        m.evlrOffset = 0;
    m.bytes = out;
}
// ---------------------------------------------------------------- random models
inline void randHeader(FileModel &m, Rng &r)
{
    m.fmt = randFmt(r);
    m.items.clear();
    int k = r.coin() ? 0 : (int)r.below(4);
    for (int i = 0; i < k; i++)
        m.items.push_back(randEbField(r));
    m.ebLen = 0;
    for (auto &f : m.items)
        m.ebLen += ebTypeSize(f.data_type, f.options);
    if (k == 0 && r.coin(4))
        m.ebLen = (int)r.below(300); // undocumented extra bytes
    m.source = anyInt<uint16_t>(r);
    m.enc = (uint16_t)(r.u64() | 0x10);
    m.day = anyInt<uint16_t>(r);
    m.year = anyInt<uint16_t>(r);
    m.guid = anyString(r, 16);
    m.sys = anyString(r, 32);
    m.soft = anyString(r, 32);
    for (auto &x : m.byReturn)
        x = r.u64();
    m.wkt = r.coin(3) ? "" : anyString(r, r.coin(4) ? 3000 : 60);
    m.hasExtents = !r.coin(4);
    m.extended = r.coin();
    m.extents.clear();
    for (int i = 0; i < m.slots(); i++)
    {
        double a = modest(r), b = modest(r);
        m.extents.push_back({std::min(a, b), std::max(a, b), modest(r), std::fabs(modest(r))});
    }
    m.gpsMin = modest(r);
    m.gpsMax = modest(r);
    for (auto &c : m.center)
        c = modest(r);
    m.halfsize = std::fabs(modest(r));
    static const std::vector<double> sp{10, 1, 0.5, 100, 3.7, 64, 1e-3, 1e9};
    m.spacing = r.pick(sp);
    m.scale = {0.001 * (double)(1 + r.below(20)), 0.01, 0.25};
    m.offset = {(double)r.range(-50, 50), r.coin() ? 0. : 10.5, (double)r.range(-1000, 1000)};
    double span = 64 * (1 + r.below(3));
    m.min = {m.offset.x + (double)r.range(-100, 100), m.offset.y + (double)r.range(-100, 100), m.offset.z + (double)r.range(-100, 100)};
    // span differs per axis; the largest decides the cube
    double s[3] = {span, span * (r.coin() ? 1 : 0.5), span * (r.coin() ? 1 : 0.25)};
    int rot = r.below(3);
    m.max = {m.min.x + s[rot], m.min.y + s[(rot + 1) % 3], m.min.z + s[(rot + 2) % 3]};
}
inline double spanOf(const FileModel &m)
{
    return std::max({m.max.x - m.min.x, m.max.y - m.min.y, m.max.z - m.min.z});
}
inline void nodeBox(const FileModel &m, const copc::VoxelKey &k, double lo[3], double hi[3])
{
    double step = spanOf(m);
    for (int i = 0; i < k.d; i++)
        step /= 2;
    double mn[3] = {m.min.x, m.min.y, m.min.z};
    int32_t x[3] = {k.x, k.y, k.z};
    for (int i = 0; i < 3; i++)
    {
        lo[i] = mn[i] + x[i] * step;
        hi[i] = lo[i] + step;
    }
}
// points of a node: mostly inside its box, some of them anywhere if wild
inline void randPoints(FileModel &m, MNode &n, Rng &r, int count, bool wild)
{
    double lo[3], hi[3];
    nodeBox(m, n.key, lo, hi);
    double sc[3] = {m.scale.x, m.scale.y, m.scale.z}, of[3] = {m.offset.x, m.offset.y, m.offset.z};
    for (int i = 0; i < count; i++)
    {
        RefPoint p = randRef(r, m.fmt, m.ebLen, m.scale, m.offset, true);
        int32_t q[3];
        double c[3];
        for (int a = 0; a < 3; a++)
        {
            double t = lo[a] + (hi[a] - lo[a]) * (r.coin(8) ? (double)r.below(2) : r.unit());
            if (wild && r.coin(6))
                t = lo[a] + (hi[a] - lo[a]) * (r.unit() * 4 - 1.5);
            q[a] = (int32_t)std::llround((t - of[a]) / sc[a]);
            if (!wild)
            { // stay inside after quantising
                if (q[a] * sc[a] + of[a] < lo[a])
                    q[a]++;
                if (q[a] * sc[a] + of[a] > hi[a])
                    q[a]--;
            }
            c[a] = q[a] * sc[a] + of[a];
        }
        p.xi = q[0], p.yi = q[1], p.zi = q[2];
        p.x = c[0], p.y = c[1], p.z = c[2];
        n.pts.push_back(p);
    }
}
inline copc::VoxelKey childOf(const copc::VoxelKey &k, int c)
{
    return {k.d + 1, 2 * k.x + (c & 1), 2 * k.y + ((c >> 1) & 1), 2 * k.z + ((c >> 2) & 1)};
}
inline void randHierarchy(FileModel &m, Rng &r, bool wild, int maxNodes = 14, bool nearestOnly = false, bool empties = false)
{
    std::vector<copc::VoxelKey> keys;
    auto has = [&](const copc::VoxelKey &k) {
        for (auto &x : keys)
            if (keyEq(x, k))
                return true;
        return false;
    };
    bool fan = r.coin(12); // many pages side by side
    int n = fan ? 12 + (int)r.below(20) : (int)r.below(maxNodes + 1);
    for (int i = 0; i < n; i++)
    {
        copc::VoxelKey k{0, 0, 0, 0};
        if (fan)
        {
            k = childOf(childOf(k, (int)r.below(8)), (int)r.below(8));
            if (!has(k))
                keys.push_back(k);
            continue;
        }
        if (!keys.empty() && !r.coin(5))
            k = r.pick(keys);
        int steps = (int)r.below(3) + (r.coin(12) ? (int)r.below(12) : 0);
        for (int s = 0; s < steps && k.d < 29; s++)
            k = childOf(k, (int)r.below(8));
        if (!has(k))
            keys.push_back(k);
    }
    m.nodes.clear();
    m.pages.clear();
    m.pages.push_back({{0, 0, 0, 0}, {}, {}, 0, 0, -1});
    // page keys: ancestors-or-self of node keys
    for (auto &k : keys)
        if (fan ? !r.coin(4) : r.coin(3))
        {
            auto p = k;
            int up = fan ? (int)r.below(2) : (int)r.below(3);
            while (up-- > 0 && p.d > 0)
                p = {p.d - 1, p.x / 2, p.y / 2, p.z / 2};
            if (m.findPage(p) < 0)
                m.pages.push_back({p, {}, {}, 0, 0, -1});
        }
    for (auto &k : keys)
    {
        MNode nd;
        nd.key = k;
        // a node of the octree may hold no points: offset, size and count are 0
        if (!(empties && r.coin(4)))
            randPoints(m, nd, r, 1 + (int)r.below(5), wild);
        std::vector<int> anc;
        int best = 0;
        for (size_t i = 0; i < m.pages.size(); i++)
            if (isAncestorOrSelf(m.pages[i].key, k))
            {
                anc.push_back((int)i);
                if (m.pages[i].key.d > m.pages[best].key.d)
                    best = (int)i;
            }
        nd.page = (nearestOnly || !r.coin(4)) ? best : r.pick(anc);
        m.pages[nd.page].nodes.push_back((int)m.nodes.size());
        m.nodes.push_back(nd);
    }
    for (size_t i = 1; i < m.pages.size(); i++)
    {
        int best = 0;
        for (size_t j = 0; j < m.pages.size(); j++)
            if (j != i && isAncestorOrSelf(m.pages[j].key, m.pages[i].key) && m.pages[j].key.d >= m.pages[best].key.d)
                best = (int)j;
        m.pages[i].parent = best;
        m.pages[best].subs.push_back((int)i);
    }
}
inline void noteModel(const FileModel &m)
{
    std::ostringstream s;
    s << std::setprecision(17) << "format " << m.fmt << " record " << m.rec() << " items " << m.items.size() << " min " << str(m.min) << " max " << str(m.max) << " scale "
      << str(m.scale) << " offset " << str(m.offset) << " spacing " << m.spacing << " nodes";
    for (auto &n : m.nodes)
        s << " " << str(n.key) << "#" << n.pts.size() << "@" << str(m.pages.empty() ? copc::VoxelKey{0, 0, 0, 0} : m.pages[n.page].key);
    s << " pages";
    for (auto &p : m.pages)
        s << " " << str(p.key);
    trace += s.str() + "; ";
}
// ---------------------------------------------------------------- independent parser
struct PEntry
{
    copc::VoxelKey key;
    uint64_t offset;
    int32_t size, count;
};
struct Parsed
{
    std::string b;
    uint16_t source, enc, day, year, recLen, headerSize;
    std::string guid, sys, soft;
    int vmaj, vmin, fmt;
    bool compressed;
    uint32_t pointOffset, vlrCount, legacyCount, evlrCount;
    uint64_t evlrOffset, pointCount, chunkTable;
    double scale[3], offset[3], max[3], min[3];
    uint64_t byReturn[15];
    uint32_t legacyByReturn[5];
    std::vector<VlrModel> vlrs;
    uint64_t vlrEnd{};
    std::vector<std::pair<uint64_t, uint64_t>> chunks; // count, length
    std::vector<uint64_t> chunkPos;
    uint64_t tableEnd{}, fileEnd{};
};
inline Parsed parseFile(const std::string &b)
{
    Parsed p;
    p.b = b;
    REQ(b.size() >= 375 && b.compare(0, 4, "LASF") == 0, "written file has no LAS header");
    auto text = [&](size_t at, size_t n) {
        std::string s = b.substr(at, n);
        return s.substr(0, strnlen(s.c_str(), n));
    };
    p.source = le<uint16_t>(b, 4);
    p.enc = le<uint16_t>(b, 6);
    p.guid = text(8, 16);
    p.vmaj = le<uint8_t>(b, 24);
    p.vmin = le<uint8_t>(b, 25);
    p.sys = text(26, 32);
    p.soft = text(58, 32);
    p.day = le<uint16_t>(b, 90);
    p.year = le<uint16_t>(b, 92);
    p.headerSize = le<uint16_t>(b, 94);
    p.pointOffset = le<uint32_t>(b, 96);
    p.vlrCount = le<uint32_t>(b, 100);
    p.fmt = le<uint8_t>(b, 104) & 0x3f;
    p.compressed = (le<uint8_t>(b, 104) & 0xc0) == 0x80;
    p.recLen = le<uint16_t>(b, 105);
    p.legacyCount = le<uint32_t>(b, 107);
    for (int i = 0; i < 5; i++)
        p.legacyByReturn[i] = le<uint32_t>(b, 111 + 4 * i);
    for (int i = 0; i < 3; i++)
    {
        p.scale[i] = led(b, 131 + 8 * i);
        p.offset[i] = led(b, 155 + 8 * i);
        p.max[i] = led(b, 179 + 16 * i);
        p.min[i] = led(b, 187 + 16 * i);
    }
    p.evlrOffset = le<uint64_t>(b, 235);
    p.evlrCount = le<uint32_t>(b, 243);
    p.pointCount = le<uint64_t>(b, 247);
    for (int i = 0; i < 15; i++)
        p.byReturn[i] = le<uint64_t>(b, 255 + 8 * i);
    REQ(p.vmaj == 1 && p.vmin == 4 && p.headerSize == 375, "written header version/size");
    auto rd = [&](uint64_t &pos, bool e) {
        REQ(pos + (e ? 60 : 54) <= b.size(), "written VLR outside the file");
        VlrModel v;
        v.evlr = e;
        v.pos = pos;
        v.reserved = le<uint16_t>(b, pos);
        v.user = text(pos + 2, 16);
        v.id = le<uint16_t>(b, pos + 18);
        uint64_t len = e ? le<uint64_t>(b, pos + 20) : le<uint16_t>(b, pos + 20);
        v.desc = text(pos + (e ? 28 : 22), 32);
        uint64_t at = pos + (e ? 60 : 54);
        REQ(len <= b.size() && at + len <= b.size(), "written VLR payload outside the file");
        v.payload = b.substr(at, len);
        pos = at + len;
        p.vlrs.push_back(v);
    };
    uint64_t pos = 375;
    REQ(p.vlrCount < 1000 && p.evlrCount < 100000, "absurd VLR count");
    for (uint32_t i = 0; i < p.vlrCount; i++)
        rd(pos, false);
    p.vlrEnd = pos;
    REQ(p.vlrEnd <= p.pointOffset, "VLRs run into the point data: " << p.vlrEnd << " > " << p.pointOffset);
    pos = p.evlrOffset;
    for (uint32_t i = 0; i < p.evlrCount; i++)
        rd(pos, true);
    if (p.evlrCount)
        p.fileEnd = pos;
    REQ(p.pointOffset + 8 <= b.size(), "point data offset outside the file");
    p.chunkTable = le<uint64_t>(b, p.pointOffset);
    REQ(p.chunkTable + 8 <= b.size() && p.chunkTable >= p.pointOffset + 8, "chunk table offset outside the file: " << p.chunkTable);
    REQ(le<uint32_t>(b, p.chunkTable) == 0, "chunk table version");
    uint32_t n = le<uint32_t>(b, p.chunkTable + 4);
    REQ(p.chunkTable + 8 + 16ull * n <= b.size(), "chunk table outside the file, chunks " << n);
    uint64_t at = p.pointOffset + 8;
    for (uint32_t i = 0; i < n; i++)
    {
        uint64_t c = le<uint64_t>(b, p.chunkTable + 8 + 16 * i), l = le<uint64_t>(b, p.chunkTable + 16 + 16 * i);
        p.chunks.push_back({c, l});
        p.chunkPos.push_back(at);
        at += l;
    }
    REQ(at == p.chunkTable, "chunk lengths do not add up to the chunk table position: " << at << " vs " << p.chunkTable);
    p.tableEnd = p.chunkTable + 8 + 16ull * n;
    return p;
}
inline const VlrModel *findVlr(const Parsed &p, const std::string &u, int id)
{
    for (auto &v : p.vlrs)
        if (v.user == u && v.id == id)
            return &v;
    return nullptr;
}
// walks the hierarchy from the info VLR; page key -> entries
inline std::map<copc::VoxelKey, std::vector<PEntry>> parseHierarchy(const Parsed &p)
{
    auto *info = findVlr(p, "copc", 1);
    REQ(info && info->pos == 375 && info->payload.size() == 160, "info VLR");
    std::map<copc::VoxelKey, std::vector<PEntry>> out;
    std::vector<PEntry> todo{{{0, 0, 0, 0}, le<uint64_t>(info->payload, 40), (int32_t)le<uint64_t>(info->payload, 48), -1}};
    std::set<uint64_t> seen;
    while (!todo.empty())
    {
        auto e = todo.back();
        todo.pop_back();
        REQ(e.size >= 0 && e.size % 32 == 0 && e.offset + e.size <= p.b.size(), "page " << str(e.key) << " outside the file: " << e.offset << "+" << e.size);
        REQ(!out.count(e.key), "page " << str(e.key) << " reached twice");
        auto &v = out[e.key];
        bool evlr = false;
        for (auto &x : p.vlrs)
            if (x.evlr && x.user == "copc" && x.id == 1000 && x.pos + 60 == e.offset && (int64_t)x.payload.size() == e.size)
                evlr = true;
        REQ(evlr, "page " << str(e.key) << " is not the payload of a hierarchy EVLR");
        for (int i = 0; i < e.size / 32; i++)
        {
            size_t at = e.offset + 32 * i;
            PEntry q{{le<int32_t>(p.b, at), le<int32_t>(p.b, at + 4), le<int32_t>(p.b, at + 8), le<int32_t>(p.b, at + 12)}, le<uint64_t>(p.b, at + 16), le<int32_t>(p.b, at + 24), le<int32_t>(p.b, at + 28)};
            v.push_back(q);
            if (q.count == -1)
                todo.push_back(q);
        }
    }
    return out;
}
inline copc::las::EbVlr ebVlrOf(const std::vector<copc::las::EbVlr::ebfield> &items)
{
    copc::las::EbVlr v(0);
    v.items = items;
    return v;
}
inline std::vector<char> chars(const std::string &s) { return std::vector<char>(s.begin(), s.end()); }
inline std::string strOf(const std::vector<char> &v) { return std::string(v.begin(), v.end()); }
inline copc::las::Points pointsOf(const std::vector<RefPoint> &ps, int fmt, int eb)
{
    copc::las::Points out(fmt, eb);
    for (auto &q : ps)
    {
        auto p = out.CreatePoint();
        fill(*p, q);
        out.AddPoint(p);
    }
    return out;
}
} // namespace drv

// C14: configurations and writer overrides
#include "files.hpp"
using namespace drv;
using namespace copc;
static bool sameEbs(const las::EbVlr &a, const std::vector<las::EbVlr::ebfield> &b)
{
    if (a.items.size() != b.size())
        return false;
    for (size_t i = 0; i < b.size(); i++)
        if (!sameEb(a.items[i], b[i]))
            return false;
    return true;
}
static std::vector<las::EbVlr::ebfield> randItems(Rng &r)
{
    std::vector<las::EbVlr::ebfield> v;
    int n = r.coin() ? 0 : (int)r.below(4);
    for (int i = 0; i < n; i++)
        v.push_back(randEbField(r, r.coin()));
    return v;
}
static int len(const std::vector<las::EbVlr::ebfield> &v)
{
    int s = 0;
    for (auto &f : v)
        s += ebTypeSize(f.data_type, f.options);
    return s;
}
struct M
{
    int fmt;
    Vector3 sc, of;
    std::string wkt;
    std::vector<las::EbVlr::ebfield> items;
    bool ext;
    std::vector<std::array<double, 4>> ex;
    double info[5];
    uint64_t ho, hs;
    Vector3 mn, mx;
    std::string guid;
    uint16_t src;
};
static void checkH(const las::LasHeader &h, const M &m, bool copc, const char *w)
{
    REQ(h.PointFormatId() == m.fmt && h.PointRecordLength() == baseSize(m.fmt) + len(m.items) && h.EbByteSize() == len(m.items), w << ": format/record length " << h.PointRecordLength());
    REQ(same(h.Scale(), m.sc) && same(h.Offset(), m.of), w << ": scale/offset");
    REQ(h.IsCopc() == copc, w << ": COPC flag");
    REQ(same(h.min, m.mn) && same(h.max, m.mx) && h.GUID() == m.guid && h.file_source_id == m.src, w << ": other header fields");
}
static void checkC(const CopcConfig &c, const M &m, const char *w)
{
    checkH(c.LasHeader(), m, true, w);
    REQ(c.Wkt() == m.wkt && sameEbs(c.ExtraBytesVlr(), m.items), w << ": WKT/descriptors");
    auto i = c.CopcInfo();
    REQ(same(i.center_x, m.info[0]) && same(i.center_y, m.info[1]) && same(i.center_z, m.info[2]) && same(i.halfsize, m.info[3]) && same(i.spacing, m.info[4]) && i.root_hier_offset == m.ho && i.root_hier_size == m.hs, w << ": info");
    const auto e = c.CopcExtents();
    REQ(e.PointFormatId() == m.fmt && e.HasExtendedStats() == m.ext && e.NumberOfExtents() == m.ex.size(), w << ": extents");
    auto v = e.Extents();
    for (size_t k = 0; k < m.ex.size(); k++)
        REQ(same(v[k].minimum, m.ex[k][0]) && same(v[k].maximum, m.ex[k][1]) && same(v[k].mean, m.ex[k][2]) && same(v[k].var, m.ex[k][3]), w << ": extent " << k);
}
static void checkW(const std::shared_ptr<CopcConfigWriter> &c, const M &m, const char *w)
{
    checkC(*c, m, w);
    checkH(*c->LasHeader(), m, true, w);
    REQ(c->CopcExtents()->NumberOfExtents() == m.ex.size(), w << ": mutable extents");
}
static void scribble(CopcConfigWriter &c)
{
    c.LasHeader()->min = {-1e7, -1e7, -1e7};
    c.LasHeader()->GUID("scribble");
    c.LasHeader()->file_source_id ^= 1;
    c.CopcInfo()->spacing += 1;
    c.CopcInfo()->root_hier_offset++;
    for (auto &e : c.CopcExtents()->Extents())
        e->mean += 3;
}
static void run(Rng &r)
{
    M m;
    m.fmt = randFmt(r);
    m.sc = randScale(r);
    m.of = randOffset(r);
    m.wkt = r.coin(3) ? "" : anyString(r, 80);
    m.items = randItems(r);
    m.ext = r.coin();
    NOTE("format " << m.fmt << " items " << m.items.size() << " extra " << len(m.items));
    CopcConfigWriter c(m.fmt, m.sc, m.of, m.wkt, ebVlrOf(m.items), m.ext);
    m.mn = m.mx = {0, 0, 0};
    m.src = 0;
    for (auto &x : m.info)
        x = 0;
    m.ho = m.hs = 0;
    m.ex.assign(baseDims(m.fmt) + m.items.size(), {0, 0, 0, 1});
    checkW(std::make_shared<CopcConfigWriter>(c), m, "fresh configuration");
    // fill in
    m.mn = {modest(r), modest(r), modest(r)};
    m.mx = {m.mn.x + std::fabs(modest(r)), m.mn.y + std::fabs(modest(r)), m.mn.z + std::fabs(modest(r))};
    m.guid = anyString(r, 16);
    m.src = anyInt<uint16_t>(r);
    c.LasHeader()->min = m.mn;
    c.LasHeader()->max = m.mx;
    c.LasHeader()->GUID(m.guid);
    c.LasHeader()->file_source_id = m.src;
    for (auto &x : m.info)
        x = modest(r);
    m.ho = r.u64();
    m.hs = r.u64();
    *c.CopcInfo() = CopcInfo();
    c.CopcInfo()->center_x = m.info[0], c.CopcInfo()->center_y = m.info[1], c.CopcInfo()->center_z = m.info[2];
    c.CopcInfo()->halfsize = m.info[3], c.CopcInfo()->spacing = m.info[4], c.CopcInfo()->root_hier_offset = m.ho, c.CopcInfo()->root_hier_size = m.hs;
    auto ex = c.CopcExtents()->Extents();
    for (size_t k = 0; k < m.ex.size(); k++)
    {
        double a = modest(r), b = modest(r);
        m.ex[k] = {std::min(a, b), std::max(a, b), modest(r), std::fabs(modest(r))};
        ex[k]->minimum = m.ex[k][0], ex[k]->maximum = m.ex[k][1], ex[k]->mean = m.ex[k][2], ex[k]->var = m.ex[k][3];
    }
    checkC(c, m, "filled configuration");
    // copies
    {
        CopcConfigWriter a(c), b(static_cast<const CopcConfig &>(c)), d(c.operator=(c));
        const CopcConfigWriter &cc = c;
        CopcConfigWriter e(cc.LasHeader(), cc.CopcInfo(), cc.CopcExtents(), cc.Wkt(), cc.ExtraBytesVlr());
        CopcConfigWriter f(6);
        f = c;
        checkC(a, m, "copy");
        checkC(b, m, "copy from configuration");
        checkC(e, m, "from elements");
        checkC(f, m, "assigned");
        for (auto *p : {&a, &b, &d, &e, &f})
            scribble(*p);
        checkC(c, m, "source after changing its copies");
    }
    // LAZ configurations
    {
        las::LazConfig lz(static_cast<const CopcConfig &>(c));
        REQ(lz.Wkt() == m.wkt && sameEbs(lz.ExtraBytesVlr(), m.items), "LAZ configuration from COPC");
        checkH(lz.LasHeader(), m, true, "LAZ configuration from COPC");
        las::LazConfigWriter w(lz), w2(w), w3(m.fmt, m.sc, m.of, m.wkt, ebVlrOf(m.items)), w4(6);
        w4 = w;
        const las::LazConfigWriter &cw = w, &cw2 = w2, &cw4 = w4;
        checkH(cw.LasHeader(), m, false, "LAZ writer configuration");
        checkH(cw2.LasHeader(), m, false, "copied LAZ writer configuration");
        checkH(cw4.LasHeader(), m, false, "assigned LAZ writer configuration");
        REQ(w.Wkt() == m.wkt && sameEbs(w.ExtraBytesVlr(), m.items) && w2.Wkt() == m.wkt && sameEbs(w2.ExtraBytesVlr(), m.items) && w4.Wkt() == m.wkt && sameEbs(w4.ExtraBytesVlr(), m.items), "LAZ writer configuration");
        REQ(w3.LasHeader()->PointFormatId() == m.fmt && w3.LasHeader()->PointRecordLength() == baseSize(m.fmt) + len(m.items) && !w3.LasHeader()->IsCopc() && same(w3.LasHeader()->Scale(), m.sc) && same(w3.LasHeader()->Offset(), m.of) && w3.Wkt() == m.wkt && sameEbs(w3.ExtraBytesVlr(), m.items), "LAZ writer configuration from elements");
        w2.LasHeader()->min = {-9, -9, -9};
        w4.LasHeader()->max = {-9, -9, -9};
        checkH(cw.LasHeader(), m, false, "LAZ writer configuration after changing its copy");
        CopcConfig back(lz, static_cast<const CopcConfigWriter &>(c).CopcInfo(), static_cast<const CopcConfigWriter &>(c).CopcExtents());
        checkC(back, m, "COPC configuration from LAZ");
        las::LazConfig lz2(cw.LasHeader(), m.wkt, ebVlrOf(m.items));
        CopcConfig back2(lz2, static_cast<const CopcConfigWriter &>(c).CopcInfo(), static_cast<const CopcConfigWriter &>(c).CopcExtents());
        checkC(back2, m, "COPC configuration from plain LAZ");
    }
    // overrides
    {
        M n = m;
        std::optional<int8_t> f;
        std::optional<Vector3> sc, of;
        std::optional<std::string> wkt;
        std::optional<las::EbVlr> eb;
        std::optional<bool> st;
        bool any = false;
        if (r.coin(3))
            f = n.fmt = randFmt(r), any = true;
        if (r.coin(3))
            sc = n.sc = randScale(r), any = true;
        if (r.coin(3))
            of = n.of = randOffset(r), any = true;
        if (r.coin(3))
            wkt = n.wkt = r.coin(3) ? "" : anyString(r, 40), any = true;
        if (r.coin(3))
        {
            n.items = randItems(r);
            if (r.coin())
                while (n.items.size() < m.items.size())
                    n.items.push_back(randEbField(r));
            eb = ebVlrOf(n.items);
            any = true;
        }
        if (r.coin(3))
            st = n.ext = r.coin(), any = true;
        if (any)
        {
            n.ex.assign(baseDims(n.fmt) + n.items.size(), {0, 0, 0, 1});
            for (int i = 0; i < std::min(baseDims(n.fmt), baseDims(m.fmt)); i++)
                n.ex[i] = m.ex[i];
            if (n.items.size() == m.items.size())
                for (size_t i = 0; i < n.items.size(); i++)
                    n.ex[baseDims(n.fmt) + i] = m.ex[baseDims(m.fmt) + i];
        }
        NOTE("overrides: format " << (f ? *f : -1) << " scale " << !!sc << " offset " << !!of << " wkt " << !!wkt << " eb " << (eb ? (int)eb->items.size() : -1) << " stats " << !!st);
        std::ostringstream sink;
        auto *old = std::cout.rdbuf(sink.rdbuf());
        std::stringstream out;
        {
            Writer w(out, c, f, sc, of, wkt, eb, st);
            std::cout.rdbuf(old);
            checkW(w.CopcConfig(), n, "writer configuration");
            scribble(*w.CopcConfig());
            checkC(c, m, "source configuration after changing the writer's");
            w.CopcConfig()->LasHeader()->GUID("x");
        }
        REQ(out.str().size() > 375 && c.CopcInfo()->root_hier_offset == m.ho, "closing the writer changed the source configuration");
        std::cout.rdbuf(sink.rdbuf());
        std::stringstream out2;
        static const std::vector<int> bad{0, 5, 9, 127, -1};
        int bf = r.pick(bad);
        bool t = throws([&] { Writer w(out2, c, (int8_t)bf); });
        std::cout.rdbuf(old);
        REQ(t, "format override " << bf << " accepted");
        REQ(throws([&] { CopcConfigWriter z((int8_t)bf); }) && throws([&] { las::LazConfigWriter z((int8_t)bf); }), "format " << bf << " accepted");
    }
    // info conversion
    {
        CopcExtent g(-5.5, 7.25);
        auto i = static_cast<const CopcConfigWriter &>(c).CopcInfo();
        auto v = i.ToLazPerf(g);
        REQ(same(v.center_x, m.info[0]) && same(v.center_y, m.info[1]) && same(v.center_z, m.info[2]) && same(v.halfsize, m.info[3]) && same(v.spacing, m.info[4]) && v.root_hier_offset == m.ho && v.root_hier_size == m.hs && v.gpstime_minimum == -5.5 && v.gpstime_maximum == 7.25, "info to VLR");
        CopcInfo b(v);
        REQ(same(b.center_x, m.info[0]) && same(b.center_y, m.info[1]) && same(b.center_z, m.info[2]) && same(b.halfsize, m.info[3]) && same(b.spacing, m.info[4]) && b.root_hier_offset == m.ho && b.root_hier_size == m.hs, "info from VLR");
    }
}
std::vector<Case> drv::cases{{"configurations", run, 1}, {"files", copcWrappers, 1}};

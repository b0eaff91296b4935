// C12: extents
#include "iofile.hpp"
using namespace drv;
using namespace copc;
using Ex = std::shared_ptr<CopcExtent>;
struct Acc
{
    const char *name;
    Ex (CopcExtents::*get)();
    void (CopcExtents::*set)(Ex);
};
#define A(n) {#n, static_cast<Ex (CopcExtents::*)()>(&CopcExtents::n), static_cast<void (CopcExtents::*)(Ex)>(&CopcExtents::n)}
static const std::vector<Acc> acc{A(X), A(Y), A(Z), A(Intensity), A(ReturnNumber), A(NumberOfReturns), A(ScannerChannel), A(ScanDirectionFlag), A(EdgeOfFlightLine), A(Classification), A(UserData), A(ScanAngle), A(PointSourceId), A(GpsTime), A(Red), A(Green), A(Blue), A(Nir)};
static std::array<double, 4> rnd(Rng &r)
{
    double a = r.coin(6) ? anyDouble(r) : modest(r), b = r.coin(6) ? anyDouble(r) : modest(r);
    return {std::min(a, b), std::max(a, b), modest(r), std::fabs(modest(r))};
}
static std::vector<std::array<double, 4>> fillAll(CopcExtents &e, Rng &r)
{
    std::vector<std::array<double, 4>> v;
    auto all = e.Extents();
    for (auto &x : all)
    {
        auto q = rnd(r);
        v.push_back(q);
        x->minimum = q[0], x->maximum = q[1], x->mean = q[2], x->var = q[3];
    }
    return v;
}
static bool eq(const CopcExtent &e, const std::array<double, 4> &q) { return same(e.minimum, q[0]) && same(e.maximum, q[1]) && same(e.mean, q[2]) && same(e.var, q[3]); }
static void slots(Rng &r)
{
    int f = randFmt(r), n = r.coin(3) ? 0 : (int)r.below(12);
    if (r.coin(30))
        n = 230 + (int)r.below(60); // more than 255 slots in all
    bool x = r.coin();
    NOTE("format " << f << " extra " << n);
    CopcExtents e(f, n, x);
    int base = baseDims(f);
    REQ(e.NumberOfExtents() == (size_t)(base + n) && CopcExtents::NumberOfExtents(f, n) == base + n && PointBaseNumberExtents(f) == base, "slot count");
    REQ(CopcExtents::ByteSize(f, n) == (size_t)(base + n) * 16, "byte size");
    REQ(e.PointFormatId() == f && e.HasExtendedStats() == x, "attributes");
    for (auto &q : e.Extents())
        REQ(eq(*q, {0, 0, 0, 1}), "default extent");
    auto v = fillAll(e, r);
    for (int i = 0; i < 18; i++)
    {
        bool has = i < 14 || (i < 17 && f >= 7) || f == 8;
        if (has)
        {
            REQ(eq(*(e.*acc[i].get)(), v[i]), "accessor " << acc[i].name);
            auto q = rnd(r);
            auto p = std::make_shared<CopcExtent>(q[0], q[1], q[2], q[3]);
            (e.*acc[i].set)(p);
            v[i] = q;
            auto all = e.Extents();
            for (int k = 0; k < base + n; k++)
                REQ(eq(*all[k], v[k]), "slot " << k << " after setting " << acc[i].name);
        }
        else
        {
            REQ(throws([&] { (e.*acc[i].get)(); }) && throws([&] { (e.*acc[i].set)(std::make_shared<CopcExtent>()); }), "accessor " << acc[i].name << " must throw");
        }
    }
    auto eb = e.ExtraBytes();
    REQ((int)eb.size() == n, "extra-byte extents");
    for (int i = 0; i < n; i++)
        REQ(eq(*eb[i], v[base + i]), "extra-byte extent " << i);
    std::vector<Ex> nw;
    for (int i = 0; i < n; i++)
    {
        v[base + i] = rnd(r);
        nw.push_back(std::make_shared<CopcExtent>(v[base + i][0], v[base + i][1], v[base + i][2], v[base + i][3]));
    }
    e.ExtraBytes(nw);
    auto check = [&](const CopcExtents &y, const char *what) {
        auto all = y.Extents();
        REQ(all.size() == v.size(), what);
        for (size_t i = 0; i < v.size(); i++)
            REQ(eq(all[i], v[i]), what << " slot " << i);
    };
    check(e, "after setting extra bytes");
    nw.push_back(std::make_shared<CopcExtent>());
    REQ(throws([&] { e.ExtraBytes(nw); }), "wrong number of extra-byte extents");
    check(e, "after a refused setter");
    // VLR round trip
    auto vlr = e.ToLazPerf({}, {}, {}), xvlr = e.ToLazPerfExtended();
    REQ(vlr.items.size() == v.size() && vlr.size() == 16 * v.size(), "VLR size");
    std::ostringstream o;
    vlr.write(o);
    Bytes want;
    for (auto &q : v)
        want.d(q[0]).d(q[1]);
    REQ(o.str() == want.s, "extents VLR payload");
    REQ(vlr.header().user_id == "copc" && vlr.header().record_id == 10000 && vlr.header().data_length == (uint16_t)(16 * v.size()) && vlr.header().description == "COPC extents", "VLR header");
    std::istringstream in(want.s);
    auto rv = las::CopcExtentsVlr::create(in, (int)want.s.size());
    CopcExtents back(rv, f, n, true);
    std::ostringstream o2;
    xvlr.write(o2);
    std::istringstream in2(o2.str());
    auto rx = las::CopcExtentsVlr::create(in2, (int)o2.str().size());
    back.SetExtendedStats(rx);
    check(back, "extents read back");
    CopcExtents plain(rv, f, n, false);
    REQ(throws([&] { plain.SetExtendedStats(rx); }), "extended stats without the flag");
    auto pa = plain.Extents();
    for (size_t i = 0; i < v.size(); i++)
        REQ(eq(*pa[i], {v[i][0], v[i][1], 0, 1}), "plain extents read back");
    int m = n + (r.coin() || n == 0 ? 1 : -1);
    if (m <= 65535)
        REQ(throws([&] { CopcExtents bad(rv, f, m, true); }), "wrong slot count accepted");
    rx.items.push_back({0, 0});
    REQ(throws([&] { back.SetExtendedStats(rx); }), "wrong number of extended stats accepted");
    check(back, "after refused stats");
    // deep copy
    CopcExtents c(e);
    REQ(c.PointFormatId() == f && c.HasExtendedStats() == x, "copy attributes");
    check(c, "copy");
    for (auto &q : c.Extents())
        q->minimum = -1e300, q->mean = 7;
    check(e, "source after changing the copy");
    static const std::vector<int> badf{0, 3, 5, 9, 10, -1, 127, -128};
    int b = r.pick(badf);
    REQ(throws([&] { CopcExtents z((int8_t)b, 0); }) && throws([&] { CopcExtents z(rv, (int8_t)b, n); }), "format " << b << " accepted");
}
static void rebuild(Rng &r)
{
    int f = randFmt(r), g = randFmt(r), n = (int)r.below(4), k = r.coin() ? n : (int)r.below(4);
    bool x = r.coin(), y = r.coin();
    NOTE("format " << f << "->" << g << " extra " << n << "->" << k);
    CopcExtents e(f, n, x);
    auto v = fillAll(e, r);
    std::ostringstream sink;
    auto *old = std::cout.rdbuf(sink.rdbuf());
    CopcExtents c(e, g, k, y);
    std::cout.rdbuf(old);
    REQ(c.PointFormatId() == g && c.HasExtendedStats() == y && c.NumberOfExtents() == (size_t)baseDims(g) + k, "rebuilt attributes");
    auto all = c.Extents();
    for (int i = 0; i < baseDims(g); i++)
    {
        bool both = i < baseDims(f);
        REQ(eq(*all[i], both ? v[i] : std::array<double, 4>{0, 0, 0, 1}), "rebuilt slot " << i);
    }
    for (int i = 0; i < k; i++)
        REQ(eq(*all[baseDims(g) + i], n == k ? v[baseDims(f) + i] : std::array<double, 4>{0, 0, 0, 1}), "rebuilt extra slot " << i);
    for (auto &q : all)
        q->maximum = 1e300, q->var = 3;
    auto src = e.Extents();
    for (size_t i = 0; i < v.size(); i++)
        REQ(eq(*src[i], v[i]), "source changed with the rebuilt extents, slot " << i);
}
static void extent(Rng &r)
{
    double a = anyDouble(r), b = anyDouble(r), m = anyDouble(r), w = anyDouble(r);
    NOTE(a << " " << b << " " << m << " " << w);
    bool bad = a > b || w < 0;
    REQ(throws([&] { CopcExtent e(a, b, m, w); }) == bad, "constructor");
    REQ(throws([&] { CopcExtent e(std::vector<double>{a, b, m, w}); }) == bad, "vector constructor");
    REQ(throws([&] { CopcExtent e(std::vector<double>{a, b}); }) == (a > b), "short vector constructor");
    REQ(throws([&] { CopcExtent e(a, b); }) == (a > b), "short constructor");
    for (int n : {0, 1, 3, 5})
        REQ(throws([&] { CopcExtent e(std::vector<double>(n, 1.0)); }), "vector of " << n);
    if (!bad)
    {
        CopcExtent e(a, b, m, w), f(std::vector<double>{a, b, m, w}), g(e);
        REQ(eq(e, {a, b, m, w}) && eq(f, {a, b, m, w}) && eq(g, {a, b, m, w}), "fields");
        REQ(e == f && !(e != f), "equality");
        int k = (int)r.below(4);
        double d = k == 0 ? e.minimum : k == 1 ? e.maximum : k == 2 ? e.mean : e.var;
        double nd = std::nextafter(d, d > 0 ? -1e308 : 1e308);
        (k == 0 ? g.minimum : k == 1 ? g.maximum : k == 2 ? g.mean : g.var) = nd;
        REQ((e == g) == (d == nd) && (e != g) == (d != nd), "inequality in field " << k);
        g.minimum = 2;
        g.maximum = 1;
        REQ(throws([&] { CopcExtent h(g); }), "copy of an invalid extent");
        CopcExtent h2(e);
        h2.var = -1;
        REQ(throws([&] { CopcExtent h(h2); }), "copy of an invalid extent (variance)");
        CopcExtent s(a, b), t(std::vector<double>{a, b});
        REQ(eq(s, {a, b, 0, 1}) && eq(t, {a, b, 0, 1}), "default statistics");
    }
}
std::vector<Case> drv::cases{{"slots", slots, 1}, {"rebuild", rebuild, 2}, {"extent", extent, 2}};

#include "common.hpp"
using namespace drv;
using namespace copc;
using namespace copc::las;
static const Vector3 S{0.01, 0.01, 0.01}, O{0, 0, 0};
static void guards(const Point &cp, const RefPoint &q)
{
    Point &p = const_cast<Point &>(cp);
    bool rgb = q.fmt >= 7, nir = q.fmt == 8;
    REQ(p.HasRgb() == rgb && p.HasNir() == nir, "HasRgb/HasNir");
    REQ(throws([&] { (void)p.Red(); }) == !rgb, "Red getter guard");
    REQ(throws([&] { (void)p.Green(); }) == !rgb, "Green getter guard");
    REQ(throws([&] { (void)p.Blue(); }) == !rgb, "Blue getter guard");
    REQ(throws([&] { (void)p.Nir(); }) == !nir, "Nir getter guard");
    uint16_t a = rgb ? q.r : 1, b = rgb ? q.g : 2, c = rgb ? q.b : 3, n = nir ? q.nir : 4;
    REQ(throws([&] { p.Red(a); }) == !rgb, "Red setter guard");
    REQ(throws([&] { p.Green(b); }) == !rgb, "Green setter guard");
    REQ(throws([&] { p.Blue(c); }) == !rgb, "Blue setter guard");
    REQ(throws([&] { p.Rgb(a, b, c); }) == !rgb, "Rgb setter guard");
    REQ(throws([&] { p.Rgb(std::vector<uint16_t>{a, b, c}); }) == !rgb, "Rgb vector setter guard");
    REQ(throws([&] { p.Nir(n); }) == !nir, "Nir setter guard");
    REQ(p.EbByteSize() == q.eb.size() && p.PointRecordLength() == baseSize(q.fmt) + q.eb.size(), "sizes");
}
static void formats(Rng &r)
{
    int f = r.coin() ? randFmt(r) : edgeInt(r, -128, 127);
    int eb = randEb(r) % 2000;
    NOTE("format " << f << " eb " << eb);
    bool t = throws([&] {
        Point p(f, eb);
        RefPoint q;
        q.fmt = f;
        q.eb.assign(eb, 0);
        samePoint(p, q, "new point");
        guards(p, q);
        LasHeader h(f, baseSize(f) + eb, S, O, true);
        Point p2(h);
        samePoint(p2, q, "new point from header");
    });
    REQ(t == (f < 6 || f > 8), "constructor must refuse exactly the formats other than 6-8");
}
static void convert(Rng &r)
{
    auto q = randRef(r, randFmt(r), randEb(r) % 2000, S, O);
    Point p(q.fmt, q.eb.size());
    fill(p, q);
    NOTE("start " << q.fmt << " eb " << q.eb.size());
    uint16_t rr = q.r, gg = q.g, bb = q.b, nn = q.nir;
    for (int i = r.range(1, 5); i > 0; i--)
    {
        int f = r.coin(4) ? (int)edgeInt(r, -128, 127) : randFmt(r);
        NOTE("to " << f);
        bool bad = f < 6 || f > 8;
        bool t = throws([&] { p.ToPointFormat(f); });
        REQ(t == bad, "ToPointFormat refusal");
        if (!bad)
        {
            q.fmt = f;
            if (f < 7)
                rr = gg = bb = 0;
            if (f < 8)
                nn = 0;
        }
        RefPoint e = q;
        // a dimension both formats have must survive; a dropped one may come back as anything
        if (p.HasRgb())
        {
            if (rr == q.r && gg == q.g && bb == q.b)
                ;
            else
                e.r = p.Red(), e.g = p.Green(), e.b = p.Blue();
        }
        if (p.HasNir() && nn != q.nir)
            e.nir = p.Nir();
        samePoint(p, e, "converted point");
        guards(p, e);
        std::ostringstream o;
        RefPoint z = e;
        p.X(0), p.Y(0), p.Z(0);
        z.xi = z.yi = z.zi = 0;
        p.Pack(o, S, O);
        REQ(o.str() == z.record(), "record of the converted point");
        p.X(q.x), p.Y(q.y), p.Z(q.z);
    }
}
static void copyEq(Rng &r)
{
    int fmt = randFmt(r), eb = randEb(r) % 300;
    auto q = randRef(r, fmt, eb, S, O, true);
    q.gps = modest(r);
    Point p(fmt, eb);
    fill(p, q);
    Point c(p);
    samePoint(c, q, "copy");
    guards(c, q);
    REQ(c == p && !(c != p), "copy must equal source");
    // change one attribute of the copy
    auto e = q;
    int w = r.below(15 + (eb > 0) + (fmt >= 7 ? 3 : 0) + (fmt == 8 ? 1 : 0));
    NOTE("format " << fmt << " eb " << eb << " attribute " << w);
    bool differs = true;
    switch (w)
    {
    case 0: e.intensity ^= 1 << r.below(16); break;
    case 1: e.returns ^= 1 << r.below(8); break;
    case 2: e.flags ^= 1 << r.below(8); break;
    case 3: e.cls ^= 1 << r.below(8); break;
    case 4: e.user ^= 1 << r.below(8); break;
    case 5: e.angle ^= 1 << r.below(16); break;
    case 6: e.source ^= 1 << r.below(16); break;
    case 7: e.gps += r.coin() ? 1e-3 : 1.0; break;
    case 8: e.x += r.coin() ? 1e-5 : 0.01; break;
    case 9: e.y -= r.coin() ? 1e-5 : 0.01; break;
    case 10: e.z += r.coin() ? 1e-5 : 0.01; break;
    case 11: e.x += 5e-7, differs = false; break;
    case 12: e.y += 5e-7, differs = false; break;
    case 13: e.z -= 5e-7, differs = false; break;
    case 14: differs = false; break;
    default: {
        int k = w - 15;
        if (fmt >= 7 && k < 3) { (k == 0 ? e.r : k == 1 ? e.g : e.b) ^= 1 << r.below(16); break; }
        if (fmt >= 7) k -= 3;
        if (fmt == 8 && k == 0) { e.nir ^= 1 << r.below(16); break; }
        e.eb[r.below(e.eb.size())] ^= 1 << r.below(8);
    }
    }
    fill(c, e);
    samePoint(p, q, "source after changing the copy");
    REQ((p == c) == !differs, "operator== must be " << !differs);
    REQ((p != c) == differs, "operator!= must be " << differs);
    REQ((c == p) == !differs, "operator== must be symmetric");
    Point other(fmt == 8 ? 6 : fmt + 1, eb), longer(fmt, eb + 1), fresh(fmt, eb);
    REQ(other != fresh && longer != fresh, "points of other format or length are never equal");
}
std::vector<Case> drv::cases{{"formats", formats, 1}, {"convert", convert, 2}, {"copy", copyEq, 3}};

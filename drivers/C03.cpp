#include "common.hpp"
using namespace drv;
using namespace copc;
using namespace copc::las;
struct Snap
{
    int rn, nr, sy, kp, wh, ov, sc, sd, ed;
    uint8_t rb, fb;
    bool operator==(const Snap &o) const
    {
        return rn == o.rn && nr == o.nr && sy == o.sy && kp == o.kp && wh == o.wh && ov == o.ov && sc == o.sc &&
               sd == o.sd && ed == o.ed;
    }
};
static Snap get(const Point &p)
{
    return {p.ReturnNumber(), p.NumberOfReturns(), p.Synthetic(), p.KeyPoint(), p.Withheld(), p.Overlap(),
            p.ScannerChannel(), p.ScanDirectionFlag(), p.EdgeOfFlightLineFlag(), p.ReturnsBitField(), p.FlagsBitField()};
}
static Snap ref(int rb, int fb)
{
    return {rb & 15, rb >> 4, fb & 1, fb >> 1 & 1, fb >> 2 & 1, fb >> 3 & 1, fb >> 4 & 3, fb >> 6 & 1, fb >> 7, (uint8_t)rb, (uint8_t)fb};
}
static void bitsCase(Rng &r)
{
    auto q = randRef(r, randFmt(r), r.below(4), {0.01, 0.01, 0.01}, {0, 0, 0});
    Point p(q.fmt, q.eb.size());
    fill(p, q);
    NOTE("format " << q.fmt << " ret " << (int)q.returns << " flg " << (int)q.flags);
    // every prior byte content is visited over the iterations; all setters and values in each
    for (int which = 0; which < 9; which++)
        for (int v = 0; v < 256; v += (which < 2 || which == 6) ? 1 : 1)
        {
            int lim = which < 2 ? 15 : which == 6 ? 3 : 1;
            if (lim == 1 && v > 1)
                break;
            p.ReturnsBitField(q.returns);
            p.FlagsBitField(q.flags);
            Snap e = ref(q.returns, q.flags);
            bool bad = v > lim;
            if (!bad)
                (&e.rn)[which] = v;
            bool t = throws([&] {
                switch (which)
                {
                case 0: p.ReturnNumber(v); break;
                case 1: p.NumberOfReturns(v); break;
                case 2: p.Synthetic(v); break;
                case 3: p.KeyPoint(v); break;
                case 4: p.Withheld(v); break;
                case 5: p.Overlap(v); break;
                case 6: p.ScannerChannel(v); break;
                case 7: p.ScanDirectionFlag(v); break;
                case 8: p.EdgeOfFlightLineFlag(v); break;
                }
            });
            REQ(t == bad, "setter " << which << " value " << v << " threw=" << t);
            REQ(get(p) == e, "setter " << which << " value " << v << " changed another attribute or stored a wrong value");
            RefPoint w = q;
            w.returns = p.ReturnsBitField();
            w.flags = p.FlagsBitField();
            REQ(w.returns == (e.rn | e.nr << 4), "returns byte");
            REQ(w.flags == (e.sy | e.kp << 1 | e.wh << 2 | e.ov << 3 | e.sc << 4 | e.sd << 6 | e.ed << 7), "flags byte");
            samePoint(p, w, "other attributes after a bit setter");
        }
}
static void plain(Rng &r)
{
    auto q = randRef(r, randFmt(r), randEb(r) % 500, {0.01, 0.01, 0.01}, {0, 0, 0});
    Point p(q.fmt, q.eb.size());
    fill(p, q);
    samePoint(p, q, "filled point");
    auto n = randRef(r, q.fmt, q.eb.size(), {0.01, 0.01, 0.01}, {0, 0, 0});
    int w = r.below(18);
    NOTE("format " << q.fmt << " setter " << w << " eb " << q.eb.size());
    auto e = q;
    bool badeb = false;
    switch (w)
    {
    case 0: p.X(n.x), e.x = n.x; break;
    case 1: p.Y(n.y), e.y = n.y; break;
    case 2: p.Z(n.z), e.z = n.z; break;
    case 3: p.Intensity(n.intensity), e.intensity = n.intensity; break;
    case 4: p.Classification(n.cls), e.cls = n.cls; break;
    case 5: p.ScanAngle(n.angle), e.angle = n.angle; break;
    case 6: p.UserData(n.user), e.user = n.user; break;
    case 7: p.PointSourceId(n.source), e.source = n.source; break;
    case 8: p.GPSTime(n.gps), e.gps = n.gps; break;
    case 9: if (q.fmt >= 7) p.Red(n.r), e.r = n.r; break;
    case 10: if (q.fmt >= 7) p.Green(n.g), e.g = n.g; break;
    case 11: if (q.fmt >= 7) p.Blue(n.b), e.b = n.b; break;
    case 12: if (q.fmt >= 7) p.Rgb(n.r, n.g, n.b), e.r = n.r, e.g = n.g, e.b = n.b; break;
    case 13: if (q.fmt >= 7) p.Rgb(std::vector<uint16_t>{n.r, n.g, n.b}), e.r = n.r, e.g = n.g, e.b = n.b; break;
    case 14: if (q.fmt == 8) p.Nir(n.nir), e.nir = n.nir; break;
    case 15: p.ExtraBytes(n.eb), e.eb = n.eb; break;
    case 16: {
        auto x = n.eb;
        if (r.coin() && !x.empty()) x.pop_back(); else x.push_back(3);
        badeb = throws([&] { p.ExtraBytes(x); });
        REQ(badeb, "extra bytes of the wrong length were accepted");
        break;
    }
    case 17: {
        std::vector<uint16_t> v(r.coin() ? 2 : 4, 7);
        REQ(throws([&] { p.Rgb(v); }), "RGB vector of the wrong size was accepted");
        break;
    }
    }
    samePoint(p, e, "after a plain setter");
}
static void degrees(Rng &r)
{
    Point p(6);
    int16_t a = anyInt<int16_t>(r);
    p.ScanAngle(a);
    NOTE("scan angle " << a);
    REQ(p.ScanAngleDegrees() == 0.006f * float(a), "ScanAngleDegrees");
    float d = (float)r.range(-30000, 30000) * 0.006f;
    p.ScanAngleDegrees(d);
    REQ(std::fabs(p.ScanAngle() * 0.006 - d) < 0.0061, "setting degrees stores a scan angle more than one unit away");
}
std::vector<Case> drv::cases{{"bits", bitsCase, 1}, {"plain", plain, 20}, {"degrees", degrees, 2}};

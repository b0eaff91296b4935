#include "common.hpp"
using namespace drv;
using namespace copc;
using namespace copc::las;
static void dump(const RefPoint &q, const Vector3 &s, const Vector3 &o)
{
    NOTE("format " << q.fmt << " eb " << q.eb.size() << " scale " << str(s) << " offset " << str(o) << " xyz " << str(q.x) << "," << str(q.y) << "," << str(q.z)
                   << " int " << q.intensity << " ret " << (int)q.returns << " flg " << (int)q.flags << " cls "
                   << (int)q.cls << " usr " << (int)q.user << " ang " << q.angle << " src " << q.source << " gps "
                   << str(q.gps) << " rgb " << q.r << "," << q.g << "," << q.b << " nir " << q.nir);
}
static void roundtrip(Rng &r)
{
    auto s = randScale(r), o = randOffset(r);
    auto q = randRef(r, randFmt(r), randEb(r), s, o);
    dump(q, s, o);
    Point p(q.fmt, q.eb.size());
    fill(p, q);
    auto quant = [](double v, double s, double o) { return std::round((v - o) / s); };
    double n[3] = {quant(q.x, s.x, o.x), quant(q.y, s.y, o.y), quant(q.z, s.z, o.z)};
    bool ok = true;
    for (double v : n)
        ok = ok && v >= -2147483648.0 && v <= 2147483647.0;
    std::ostringstream out;
    std::string pre = r.coin() ? "xyz" : "";
    out << pre;
    bool threw = throws([&] { p.Pack(out, s, o); });
    REQ(threw == !ok, "Pack must throw exactly when a coordinate does not fit");
    if (!ok)
        return;
    RefPoint e = q;
    e.xi = (int32_t)n[0];
    e.yi = (int32_t)n[1];
    e.zi = (int32_t)n[2];
    REQ(out.str() == pre + e.record(), "packed record differs from the LAS record");
    std::istringstream in(e.record() + "ZZ");
    auto u = Point::Unpack(in, q.fmt, s, o, q.eb.size());
    REQ((size_t)in.tellg() == e.record().size(), "Unpack consumed a wrong number of bytes");
    RefPoint w = e;
    w.x = e.xi * s.x + o.x;
    w.y = e.yi * s.y + o.y;
    w.z = e.zi * s.z + o.z;
    samePoint(*u, w, "unpacked point");
}
static void unpackAny(Rng &r)
{
    auto s = randScale(r), o = randOffset(r);
    RefPoint q = randRef(r, randFmt(r), randEb(r), s, o);
    dump(q, s, o);
    std::string rec = q.record();
    std::istringstream in("??" + rec + rec);
    in.seekg(2);
    auto u = Point::Unpack(in, q.fmt, s, o, q.eb.size());
    samePoint(*u, q, "unpacked point");
    auto v = Point::Unpack(in, q.fmt, s, o, q.eb.size());
    samePoint(*v, q, "second unpacked point");
}
static void refuse(Rng &r)
{
    auto s = randScale(r), o = randOffset(r);
    Point p(randFmt(r), 0);
    double c[3] = {modest(r) * 0 + o.x, o.y, o.z};
    int ax = r.below(3);
    static const std::vector<double> bad{std::nan(""), INFINITY, -INFINITY, 1e300, -1e300};
    c[ax] = r.pick(bad);
    NOTE("axis " << ax << " value " << str(c[ax]) << " format " << (int)p.PointFormatId());
    p.X(c[0]);
    p.Y(c[1]);
    p.Z(c[2]);
    std::ostringstream out;
    REQ(throws([&] { p.Pack(out, s, o); }), "Pack accepted a coordinate that cannot be quantised");
}
std::vector<Case> drv::cases{{"roundtrip", roundtrip, 3}, {"unpack", unpackAny, 2}, {"refuse", refuse, 1}};

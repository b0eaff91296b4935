#include "common.hpp"
using namespace drv;
using namespace copc;
using namespace copc::las;
static double dsc(Rng &r)
{
    return r.coin() ? randScale(r).x : anyDouble(r, true);
}
template <typename F> static void one(Rng &r, double v, double s, double o, const char *what, F f)
{
    double q = std::round((v - o) / s);
    bool ok = q >= -2147483648.0 && q <= 2147483647.0;
    NOTE(what << " value " << str(v) << " scale " << str(s) << " offset " << str(o));
    int32_t got = 0;
    bool threw = throws([&] { got = f(); });
    REQ(threw == !ok, what << ": must throw exactly when the integer does not fit (threw=" << threw << ")");
    if (ok)
        REQ((double)got == q, what << ": got " << got << " expected " << q);
}
static void quant(Rng &r)
{
    double s = dsc(r), o = r.coin() ? randOffset(r).x : anyDouble(r, true), v;
    switch (r.below(4))
    {
    case 0:
        v = anyDouble(r, true);
        break;
    case 1: {
        double n = anyInt<int32_t>(r) + (double)r.range(-3, 3) / 2;
        v = n * s + o;
        break;
    }
    case 2: {
        static const std::vector<double> e{2147483647.0, 2147483647.5, 2147483648.0, 2147483646.5, -2147483648.0, -2147483648.5, -2147483649.0, 0.5, -0.5, 1.5, -1.5, 2.5};
        s = 1;
        o = 0;
        v = r.pick(e);
        break;
    }
    default:
        v = std::nextafter((anyInt<int32_t>(r) + 0.5) * s + o, r.coin() ? 1e300 : -1e300);
    }
    one(r, v, s, o, "RemoveScale", [&] { return RemoveScale<int32_t>(v, s, o); });
    int32_t i = anyInt<int32_t>(r);
    REQ(same(ApplyScale<int32_t>(i, s, o), i * s + o), "ApplyScale");
    REQ(same(ApplyScale<double>(v, s, o), v * s + o), "ApplyScale");
}
static void hdr(Rng &r)
{
    Vector3 s{dsc(r), dsc(r), dsc(r)}, o{anyDouble(r), randOffset(r).y, randOffset(r).z};
    if (r.coin())
        s = randScale(r), o = randOffset(r);
    LasHeader h(randFmt(r), 30, s, o, r.coin());
    double vx = r.coin() ? anyDouble(r, true) : anyInt<int32_t>(r) * s.x + o.x;
    double vy = r.coin() ? anyDouble(r, true) : anyInt<int32_t>(r) * s.y + o.y;
    double vz = r.coin() ? anyDouble(r, true) : anyInt<int32_t>(r) * s.z + o.z;
    one(r, vx, s.x, o.x, "RemoveScaleX", [&] { return h.RemoveScaleX(vx); });
    one(r, vy, s.y, o.y, "RemoveScaleY", [&] { return h.RemoveScaleY(vy); });
    one(r, vz, s.z, o.z, "RemoveScaleZ", [&] { return h.RemoveScaleZ(vz); });
    REQ(same(h.ApplyScaleX(vx), vx * s.x + o.x), "ApplyScaleX");
    REQ(same(h.ApplyScaleY(vx), vx * s.y + o.y), "ApplyScaleY");
    REQ(same(h.ApplyScaleZ(vx), vx * s.z + o.z), "ApplyScaleZ");
    Vector3 v{vx, vy, vz};
    REQ(same(h.ApplyScale(v), Vector3(vx * s.x + o.x, vy * s.y + o.y, vz * s.z + o.z)), "header ApplyScale");
    REQ(same(h.ApplyInverseScale(v), Vector3((vx - o.x) / s.x, (vy - o.y) / s.y, (vz - o.z) / s.z)),
        "header ApplyInverseScale must be (v - offset) / scale");
    // exact inverse on integers with dyadic scale
    LasHeader g(7, 36, {0.5, 0.25, 2}, {100, -3, 7.5}, true);
    Vector3 n((double)r.range(-100000, 100000), (double)r.range(-100000, 100000), (double)r.range(-100000, 100000));
    REQ(same(g.ApplyInverseScale(g.ApplyScale(n)), n), "ApplyInverseScale(ApplyScale(n)) != n");
}
static void vec(Rng &r)
{
    Vector3 a{anyDouble(r, true), anyDouble(r, true), anyDouble(r, true)};
    Vector3 b{anyDouble(r, true), anyDouble(r, true), anyDouble(r, true)};
    if (r.coin(4))
        b = a;
    if (r.coin(4))
        (r.coin() ? b.x : r.coin() ? b.y : b.z) = r.coin() ? 1.5 : a.y;
    double d = anyDouble(r, true);
    NOTE("a " << str(a) << " b " << str(b) << " d " << str(d));
    REQ(same(a * b, {a.x * b.x, a.y * b.y, a.z * b.z}), "a*b");
    REQ(same(a / b, {a.x / b.x, a.y / b.y, a.z / b.z}), "a/b");
    REQ(same(a + b, {a.x + b.x, a.y + b.y, a.z + b.z}), "a+b");
    REQ(same(a - b, {a.x - b.x, a.y - b.y, a.z - b.z}), "a-b");
    REQ(same(a * d, {a.x * d, a.y * d, a.z * d}), "a*d");
    REQ(same(a / d, {a.x / d, a.y / d, a.z / d}), "a/d");
    REQ(same(a + d, {a.x + d, a.y + d, a.z + d}), "a+d");
    REQ(same(a - d, {a.x - d, a.y - d, a.z - d}), "a-d");
    bool eq = a.x == b.x && a.y == b.y && a.z == b.z;
    REQ((a == b) == eq && (a != b) == !eq, "equality");
    std::vector<double> v;
    for (int i = r.below(6); i > 0; i--)
        v.push_back(anyDouble(r));
    bool t = throws([&] {
        Vector3 c(v);
        REQ(same(c, {v.at(0), v.at(1), v.at(2)}), "vector constructor");
    });
    REQ(t == (v.size() != 3), "vector constructor size check");
    REQ(same(Vector3(), {0, 0, 0}) && same(Vector3::DefaultScale(), {0.01, 0.01, 0.01}) &&
            same(Vector3::DefaultOffset(), {0, 0, 0}),
        "default vectors");
}
std::vector<Case> drv::cases{{"quantise", quant, 3}, {"header", hdr, 2}, {"vector", vec, 1}};

#include "common.hpp"
using namespace drv;
using namespace copc;
using namespace copc::las;
static void bulk(Rng &r)
{
    int f = r.range(7, 8), n = r.coin(8) ? 0 : r.below(12);
    Vector3 s{0.01, 0.01, 0.01}, o{0, 0, 0};
    Points pts(f, 1);
    std::vector<RefPoint> m;
    for (int i = 0; i < n; i++)
    {
        auto q = randRef(r, f, 1, s, o);
        auto p = pts.CreatePoint();
        fill(*p, q);
        pts.AddPoint(p);
        m.push_back(q);
    }
    NOTE("format " << f << " n " << n);
    auto all = [&](const char *w) {
        for (int i = 0; i < n; i++)
            samePoint(*pts[i], m[i], w);
        const Points &c = pts;
        auto X = c.X(); auto Y = c.Y(); auto Z = c.Z(); auto C = c.Classification(); auto P = c.PointSourceId();
        auto R = c.Red(); auto G = c.Green(); auto B = c.Blue();
        REQ(X.size() == n && Y.size() == n && Z.size() == n && C.size() == n && P.size() == n && R.size() == n && G.size() == n && B.size() == n, "bulk getter length");
        for (int i = 0; i < n; i++)
        {
            REQ(same(X[i], m[i].x) && same(Y[i], m[i].y) && same(Z[i], m[i].z), "bulk coordinates");
            REQ(C[i] == m[i].cls, "bulk classification");
            REQ(P[i] == m[i].source, "bulk point source id " << (int)P[i] << " vs " << m[i].source);
            REQ(R[i] == m[i].r && G[i] == m[i].g && B[i] == m[i].b, "bulk colour");
        }
    };
    all("initial");
    int which = r.below(8);
    int len = r.coin(3) ? (int)r.below(15) : n;
    bool bad = len != n;
    NOTE("setter " << which << " length " << len);
    auto set = [&](auto setter, auto fieldOf, auto gen) {
        using T = decltype(gen());
        std::vector<T> v;
        for (int i = 0; i < len; i++)
            v.push_back(gen());
        REQ(throws([&] { setter(v); }) == bad, "bulk setter length check");
        if (!bad)
            for (int i = 0; i < n; i++)
                fieldOf(m[i]) = v[i];
    };
    switch (which)
    {
    case 0: set([&](auto &v) { pts.X(v); }, [](RefPoint &q) -> double & { return q.x; }, [&] { return anyDouble(r); }); break;
    case 1: set([&](auto &v) { pts.Y(v); }, [](RefPoint &q) -> double & { return q.y; }, [&] { return anyDouble(r); }); break;
    case 2: set([&](auto &v) { pts.Z(v); }, [](RefPoint &q) -> double & { return q.z; }, [&] { return anyDouble(r); }); break;
    case 3: set([&](auto &v) { pts.Classification(v); }, [](RefPoint &q) -> uint8_t & { return q.cls; }, [&] { return (uint8_t)r.u64(); }); break;
#if 1 // 16-bit bulk setter
    case 4: set([&](auto &v) { pts.PointSourceId(v); }, [](RefPoint &q) -> uint16_t & { return q.source; }, [&] { return (uint16_t)r.u64(); }); break;
#else
    case 4: set([&](auto &v) { pts.PointSourceId(v); }, [](RefPoint &q) -> uint16_t & { return q.source; }, [&] { return (uint8_t)r.u64(); }); break;
#endif
    case 5: set([&](auto &v) { pts.Red(v); }, [](RefPoint &q) -> uint16_t & { return q.r; }, [&] { return (uint16_t)r.u64(); }); break;
    case 6: set([&](auto &v) { pts.Green(v); }, [](RefPoint &q) -> uint16_t & { return q.g; }, [&] { return (uint16_t)r.u64(); }); break;
    case 7: set([&](auto &v) { pts.Blue(v); }, [](RefPoint &q) -> uint16_t & { return q.b; }, [&] { return (uint16_t)r.u64(); }); break;
    }
    all("after bulk set");
}
static void filter(Rng &r)
{
    Points pts(6, 0);
    int n = r.below(9);
    auto c = [&] { return (double)r.range(-2, 2); };
    double a[3], b[3];
    for (int i = 0; i < 3; i++)
    {
        a[i] = c();
        b[i] = c();
        if (a[i] > b[i])
            std::swap(a[i], b[i]);
    }
    Box box(a[0], a[1], a[2], b[0], b[1], b[2]);
    NOTE("box " << box.ToString());
    std::vector<std::shared_ptr<Point>> in;
    for (int i = 0; i < n; i++)
    {
        auto p = pts.CreatePoint();
        double v[3] = {c(), c(), c()};
        if (r.coin())
            for (int k = 0; k < 3; k++)
                v[k] = r.coin() ? a[k] : b[k];
        if (r.coin(6))
            v[r.below(3)] = std::nextafter(r.coin() ? a[0] : b[0], r.coin() ? 9 : -9);
        p->X(v[0]), p->Y(v[1]), p->Z(v[2]);
        bool inside = true;
        for (int k = 0; k < 3; k++)
            inside = inside && v[k] >= a[k] && v[k] <= b[k];
        REQ(p->Within(box) == inside, "Point::Within at (" << v[0] << "," << v[1] << "," << v[2] << ")");
        pts.AddPoint(p);
        if (inside)
            in.push_back(p);
    }
    REQ(pts.GetWithin(box) == in, "GetWithin");
    REQ(pts.Within(box) == (in.size() == n), "Points::Within");
    REQ(pts.Size() == n, "filter must not change the collection");
}
std::vector<Case> drv::cases{{"bulk", bulk, 1}, {"filter", filter, 1}};

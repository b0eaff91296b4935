#include "common.hpp"
using namespace drv;
using namespace copc;
struct B
{
    double a[3], b[3];
};
static double small(Rng &r) { return r.coin(8) ? anyDouble(r) : (double)r.range(-3, 3) * (r.coin() ? 1 : 0.25); }
static B rnd(Rng &r)
{
    B x;
    for (int i = 0; i < 3; i++)
    {
        x.a[i] = small(r);
        x.b[i] = small(r);
        if (x.b[i] < x.a[i])
            std::swap(x.a[i], x.b[i]);
    }
    return x;
}
static Box box(const B &x)
{
    Box o;
    o.x_min = x.a[0], o.y_min = x.a[1], o.z_min = x.a[2], o.x_max = x.b[0], o.y_max = x.b[1], o.z_max = x.b[2];
    return o;
}
static bool is(const Box &o, const B &x)
{
    return same(o.x_min, x.a[0]) && same(o.y_min, x.a[1]) && same(o.z_min, x.a[2]) && same(o.x_max, x.b[0]) && same(o.y_max, x.b[1]) && same(o.z_max, x.b[2]);
}
static bool inter(const B &x, const B &y)
{
    for (int i = 0; i < 3; i++)
        if (!(x.b[i] >= y.a[i] && x.a[i] <= y.b[i]))
            return false;
    return true;
}
static bool cont(const B &x, const B &y)
{
    for (int i = 0; i < 3; i++)
        if (!(x.a[i] <= y.a[i] && y.b[i] <= x.b[i]))
            return false;
    return true;
}
static void preds(Rng &r)
{
    B x = rnd(r), y = rnd(r);
    for (int i = 0; i < 3; i++)
        switch (r.below(6)) // touching or equal bounds, or whole axis equal
        {
        case 0: y.a[i] = x.a[i], y.b[i] = std::max(y.b[i], y.a[i]); break;
        case 1: y.b[i] = x.b[i], y.a[i] = std::min(y.b[i], y.a[i]); break;
        case 2: y.a[i] = x.a[i], y.b[i] = x.b[i]; break;
        case 3: y.a[i] = x.b[i], y.b[i] = std::max(y.b[i], y.a[i]); break;
        case 4: y.b[i] = x.a[i], y.a[i] = std::min(y.b[i], y.a[i]); break;
        }
    Box p = box(x), q = box(y);
    NOTE(p.ToString() << " / " << q.ToString());
    REQ(p.Intersects(q) == inter(x, y), "Intersects");
    REQ(p.Contains(q) == cont(x, y), "Contains box");
    REQ(p.Within(q) == cont(y, x), "Within");
    B v = x;
    for (int i = 0; i < 3; i++)
        v.a[i] = v.b[i] = r.coin(3) ? x.a[i] : r.coin() ? x.b[i] : small(r);
    REQ(p.Contains(Vector3(v.a[0], v.a[1], v.a[2])) == cont(x, v), "Contains point");
}
static void ctors(Rng &r)
{
    B x = rnd(r);
    if (r.coin())
        std::swap(x.a[r.below(3)], x.b[r.below(3)]);
    auto bad = [&](int n) { for (int i = 0; i < n; i++) if (x.b[i] < x.a[i]) return true; return false; };
    double *a = x.a, *b = x.b;
    NOTE("bounds " << a[0] << "," << a[1] << "," << a[2] << " - " << b[0] << "," << b[1] << "," << b[2]);
    auto t = [&](auto f, const B &want, bool refuse, const char *w) {
        Box o;
        bool th = throws([&] { o = f(); });
        REQ(th == refuse, w << ": refusal");
        if (!th)
            REQ(is(o, want), w << ": bounds on the wrong axis, " << o.ToString());
    };
    double M = std::numeric_limits<double>::max();
    B flat = x;
    flat.a[2] = -M;
    flat.b[2] = M;
    t([&] { return Box(a[0], a[1], a[2], b[0], b[1], b[2]); }, x, bad(3), "six coordinates");
    t([&] { return Box(a[0], a[1], b[0], b[1]); }, flat, bad(2), "four coordinates");
    t([&] { return Box(Vector3(a[0], a[1], a[2]), Vector3(b[0], b[1], b[2])); }, x, bad(3), "two vectors");
    t([&] { return Box(std::vector<double>{a[0], a[1], a[2], b[0], b[1], b[2]}); }, x, bad(3), "list of 6");
    t([&] { return Box(std::vector<double>{a[0], a[1], b[0], b[1]}); }, flat, bad(2), "list of 4");
    std::vector<double> v(r.below(9), 1.0);
    REQ(throws([&] { Box o(v); }) == (v.size() != 4 && v.size() != 6), "list length " << v.size());
    B mx{{-M, -M, -M}, {M, M, M}}, e{{0, 0, 0}, {0, 0, 0}};
    REQ(is(Box::MaxBox(), mx) && is(Box::EmptyBox(), e), "MaxBox/EmptyBox");
}
static las::LasHeader header(Rng &r, B &x)
{
    las::LasHeader h(7, 36, {0.01, 0.01, 0.01}, {0, 0, 0}, true);
    x = rnd(r);
    for (int i = 0; i < 3; i++)
        if (std::fabs(x.a[i]) > 1e100 || std::fabs(x.b[i]) > 1e100)
            x.a[i] = -1, x.b[i] = 2;
    h.min = {x.a[0], x.a[1], x.a[2]};
    h.max = {x.b[0], x.b[1], x.b[2]};
    return h;
}
static void nodes(Rng &r)
{
    B x;
    auto h = header(r, x);
    auto k = randKey(r, r.coin() ? 3 : 30);
    if (r.coin(3))
    { // keys of any depth, also such that no octree cell has them
        k.d = r.coin(4) ? (int32_t)edgeInt(r, 0, INT32_MAX) : (int32_t)r.range(0, 80);
        k.x = (int32_t)edgeInt(r, 0, INT32_MAX), k.y = (int32_t)edgeInt(r, 0, INT32_MAX), k.z = (int32_t)edgeInt(r, 0, INT32_MAX);
    }
    double span = std::max(std::max(x.b[0] - x.a[0], x.b[1] - x.a[1]), x.b[2] - x.a[2]);
    REQ(same(h.Span(), span), "Span");
    double step = span / std::ldexp(1.0, k.d);
    B n;
    int32_t c[3] = {k.x, k.y, k.z};
    for (int i = 0; i < 3; i++)
    {
        n.a[i] = step * c[i] + x.a[i];
        n.b[i] = n.a[i] + step;
    }
    NOTE("key " << str(k) << " header " << str(h.min) << str(h.max));
    Box kb(k, h);
    REQ(is(kb, n), "box of a key: " << kb.ToString());
    B q = rnd(r);
    for (int i = 0; i < 3; i++)
        switch (r.below(5))
        {
        case 0: q.a[i] = n.a[i], q.b[i] = n.b[i]; break;
        case 1: q.a[i] = n.b[i], q.b[i] = std::max(q.b[i], q.a[i]); break;
        case 2: q.b[i] = n.a[i], q.a[i] = std::min(q.b[i], q.a[i]); break;
        case 3: q.a[i] = n.a[i] - 1, q.b[i] = n.b[i] + 1; break;
        }
    Box b = box(q);
    REQ(k.Intersects(h, b) == inter(n, q), "key Intersects " << b.ToString());
    REQ(k.Contains(h, b) == cont(n, q), "key Contains " << b.ToString());
    REQ(k.Within(h, b) == cont(q, n), "key Within " << b.ToString());
    REQ(k.Crosses(h, b) == (inter(n, q) && !cont(q, n)), "key Crosses " << b.ToString());
    B v = n;
    for (int i = 0; i < 3; i++)
        v.a[i] = v.b[i] = r.coin(3) ? n.a[i] : r.coin() ? n.b[i] : small(r);
    REQ(k.Contains(h, Vector3(v.a[0], v.a[1], v.a[2])) == cont(n, v), "key Contains point");
    REQ(is(h.Bounds(), x), "Bounds");
}
static void grow(Rng &r)
{
    B x;
    auto h = header(r, x);
    las::Point p(6);
    double c[3] = {small(r), small(r), small(r)};
    p.X(c[0]), p.Y(c[1]), p.Z(c[2]);
    NOTE("header " << str(h.min) << str(h.max) << " point " << c[0] << "," << c[1] << "," << c[2]);
    h.CheckAndUpdateBounds(p);
    for (int i = 0; i < 3; i++)
    {
        if (c[i] < x.a[i])
            x.a[i] = c[i];
        if (c[i] > x.b[i])
            x.b[i] = c[i];
    }
    REQ(same(h.min, {x.a[0], x.a[1], x.a[2]}) && same(h.max, {x.b[0], x.b[1], x.b[2]}), "CheckAndUpdateBounds gives " << str(h.min) << str(h.max));
}
std::vector<Case> drv::cases{{"predicates", preds, 3}, {"constructors", ctors, 2}, {"nodes", nodes, 3}, {"grow", grow, 1}};

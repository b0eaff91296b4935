#include "common.hpp"
using namespace drv;
using namespace copc;
using namespace copc::las;
static std::shared_ptr<Point> mk(Rng &r, int f, int eb)
{
    auto p = std::make_shared<Point>(f, eb);
    p->Intensity((uint16_t)r.u64());
    return p;
}
static void check(Points &pts, const std::vector<std::shared_ptr<Point>> &m, int f, int eb, const char *what)
{
    REQ(pts.PointFormatId() == f, what << ": format");
    REQ(pts.PointRecordLength() == (uint32_t)(baseSize(f) + eb) && pts.EbByteSize() == (uint32_t)eb, what << ": length");
    REQ(pts.Size() == m.size(), what << ": size " << pts.Size() << " expected " << m.size());
    REQ(pts.Get() == m, what << ": contents or order");
    size_t i = 0;
    for (auto &p : pts)
    {
        REQ(p == m[i] && pts[i] == m[i] && pts.Get(i) == m[i], what << ": element " << i);
        REQ(p->PointFormatId() == f && p->PointRecordLength() == (uint32_t)(baseSize(f) + eb), what << ": element format");
        i++;
    }
}
static void history(Rng &r)
{
    int f = randFmt(r), eb = r.coin(6) ? randEb(r) % 3000 : r.below(3);
    std::unique_ptr<Points> pts;
    std::vector<std::shared_ptr<Point>> m;
    int how = r.below(3);
    NOTE("format " << f << " eb " << eb << " ctor " << how);
    if (how == 0)
        pts.reset(new Points(f, eb));
    else if (how == 1)
        pts.reset(new Points(LasHeader(f, baseSize(f) + eb, {1, 1, 1}, {0, 0, 0}, true)));
    else
    {
        int n = r.range(1, 4), bad = r.coin() ? (int)r.below(n) : -1;
        std::vector<std::shared_ptr<Point>> v;
        for (int i = 0; i < n; i++)
            v.push_back(mk(r, i == bad && i ? (f == 6 ? 7 : 6) : f, eb));
        bool mustThrow = bad > 0;
        bool t = throws([&] { pts.reset(new Points(v)); });
        REQ(t == mustThrow, "constructor from a list");
        if (t)
            return;
        m = v;
    }
    check(*pts, m, f, eb, "constructed");
    for (int step = r.range(1, 8); step > 0; step--)
    {
        int op = r.below(6);
        auto alien = [&] {
            int k = r.below(4);
            // format 6 with 6 extra bytes has the record length of format 7 without
            if (k == 0) return std::make_pair(f == 6 ? 7 : 6, eb);
            if (k == 1) return std::make_pair(f, eb + 1);
            if (k == 2 && f == 7) return std::make_pair(6, eb + 6);
            if (k == 2 && f == 8) return std::make_pair(7, eb + 2);
            if (k == 2 && eb >= 6) return std::make_pair(7, eb - 6);
            return std::make_pair(f == 8 ? 7 : 8, eb + 1);
        };
        NOTE("op " << op);
        if (op == 0)
        {
            auto p = pts->CreatePoint();
            p->Intensity((uint16_t)r.u64());
            pts->AddPoint(p);
            m.push_back(p);
        }
        else if (op == 1)
        {
            bool bad = r.coin();
            auto a = alien();
            auto p = bad ? mk(r, a.first, a.second) : mk(r, f, eb);
            REQ(throws([&] { pts->AddPoint(p); }) == bad, "AddPoint acceptance");
            if (!bad)
                m.push_back(p);
        }
        else if (op == 2)
        {
            int n = r.below(5), bad = r.coin() && n ? (int)r.below(n) : -1;
            auto a = alien();
            std::vector<std::shared_ptr<Point>> v;
            for (int i = 0; i < n; i++)
                v.push_back(i == bad ? mk(r, a.first, a.second) : mk(r, f, eb));
            NOTE("n " << n << " bad at " << bad);
            REQ(throws([&] { pts->AddPoints(v); }) == (bad >= 0), "AddPoints(list) acceptance");
            if (bad < 0)
                m.insert(m.end(), v.begin(), v.end());
        }
        else if (op == 3)
        {
            bool bad = r.coin();
            auto a = bad ? alien() : std::make_pair(f, eb);
            Points o(a.first, a.second);
            for (int i = r.below(4); i > 0; i--)
                o.AddPoint(mk(r, a.first, a.second));
            REQ(throws([&] { pts->AddPoints(o); }) == bad, "AddPoints(collection) acceptance");
            if (!bad)
                m.insert(m.end(), o.begin(), o.end());
        }
        else if (op == 4)
        {
            int g = r.coin(3) ? (int)edgeInt(r, -128, 127) : randFmt(r);
            bool bad = g < 6 || g > 8;
            NOTE("to " << g);
            REQ(throws([&] { pts->ToPointFormat(g); }) == bad, "ToPointFormat acceptance");
            if (!bad)
                f = g;
        }
        else
        {
            int g = (int)edgeInt(r, -128, 127);
            REQ(throws([&] { Points x(g, 1); }) == (g < 6 || g > 8), "constructor format check, format " << g);
            REQ(throws([&] { Points x((std::vector<std::shared_ptr<Point>>())); }), "empty list accepted");
        }
        check(*pts, m, f, eb, "after operation");
    }
}
std::vector<Case> drv::cases{{"history", history, 1}};

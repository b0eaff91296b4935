#include "common.hpp"
using namespace drv;
using namespace copc;
using namespace copc::las;
static void pack(Rng &r)
{
    int f = randFmt(r), eb = r.coin(20) ? 65535 - 38 : randEb(r) % 500, n = r.below(7);
    auto s = randScale(r), o = randOffset(r);
    LasHeader h(f, baseSize(f) + eb, s, o, r.coin());
    Points pts(f, eb);
    NOTE("format " << f << " eb " << eb << " n " << n << " scale " << str(s) << " offset " << str(o));
    std::string want;
    std::vector<RefPoint> m;
    bool fits = true;
    for (int i = 0; i < n; i++)
    {
        auto q = randRef(r, f, eb, s, o);
        auto p = pts.CreatePoint();
        fill(*p, q);
        pts.AddPoint(p);
        double v[3] = {std::round((q.x - o.x) / s.x), std::round((q.y - o.y) / s.y), std::round((q.z - o.z) / s.z)};
        for (double d : v)
            fits = fits && d >= -2147483648.0 && d <= 2147483647.0;
        if (fits)
            q.xi = (int32_t)v[0], q.yi = (int32_t)v[1], q.zi = (int32_t)v[2];
        q.x = q.xi * s.x + o.x;
        q.y = q.yi * s.y + o.y;
        q.z = q.zi * s.z + o.z;
        m.push_back(q);
        want += q.record();
    }
    if (!fits)
        return;
    std::ostringstream a, b;
    a << "ab";
    pts.Pack(a, s, o);
    pts.Pack(b, h);
    REQ(a.str() == "ab" + want, "Pack to stream");
    REQ(b.str() == want, "Pack to stream with header");
    auto v1 = pts.Pack(s, o), v2 = pts.Pack(h);
    REQ(std::string(v1.begin(), v1.end()) == want && v1.size() == (size_t)n * (baseSize(f) + eb), "Pack to buffer");
    REQ(std::string(v2.begin(), v2.end()) == want, "Pack to buffer with header");
    std::vector<char> in(want.begin(), want.end());
    auto chk = [&](Points u) {
        REQ(u.Size() == n && u.PointFormatId() == f && u.PointRecordLength() == baseSize(f) + eb, "Unpack size/format");
        for (int i = 0; i < n; i++)
            samePoint(*u[i], m[i], "unpacked element");
    };
    chk(Points::Unpack(in, f, eb, s, o));
    chk(Points::Unpack(in, h));
    int extra = r.range(1, baseSize(f) + eb - 1);
    in.resize(in.size() + extra, 'q');
    REQ(throws([&] { Points::Unpack(in, f, eb, s, o); }) && throws([&] { Points::Unpack(in, h); }),
        "buffer with " << extra << " surplus bytes accepted");
}
std::vector<Case> drv::cases{{"pack", pack, 1}};

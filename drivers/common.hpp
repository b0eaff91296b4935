// Shared support for the replay / conformance drivers.  A driver is compiled from /repo's current
// sources plus the laz-perf stand-in and executes the real code; it decides nothing by itself on the
// unchanged tree, it replays verifier counterexamples and searches for concrete violating inputs.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "copc-lib/copc/copc_config.hpp"
#include "copc-lib/copc/extents.hpp"
#include "copc-lib/copc/info.hpp"
#include "copc-lib/geometry/box.hpp"
#include "copc-lib/geometry/vector3.hpp"
#include "copc-lib/hierarchy/entry.hpp"
#include "copc-lib/hierarchy/internal/hierarchy.hpp"
#include "copc-lib/hierarchy/internal/page.hpp"
#include "copc-lib/hierarchy/key.hpp"
#include "copc-lib/hierarchy/node.hpp"
#include "copc-lib/hierarchy/page.hpp"
#include "copc-lib/io/copc_reader.hpp"
#include "copc-lib/io/copc_writer.hpp"
#include "copc-lib/io/internal/copc_writer_internal.hpp"
#include "copc-lib/io/laz_reader.hpp"
#include "copc-lib/io/laz_writer.hpp"
#include "copc-lib/las/header.hpp"
#include "copc-lib/las/point.hpp"
#include "copc-lib/las/points.hpp"
#include "copc-lib/las/utils.hpp"
#include "copc-lib/las/vlr.hpp"
#include "copc-lib/laz/compressor.hpp"
#include "copc-lib/laz/decompressor.hpp"

namespace drv
{
struct Violation : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
extern std::string trace; // description of the current case
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { u64(); }
    uint64_t u64()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool coin(int n = 2) { return below(n) == 0; }
    double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
extern std::vector<int64_t> poolInts; // constants suggested by verifier counterexamples
extern std::vector<double> poolDoubles;

// integer with many edge values
inline int64_t edgeInt(Rng &r, int64_t lo, int64_t hi)
{
    if (!poolInts.empty() && r.coin(4))
    {
        int64_t v = r.pick(poolInts);
        if (v >= lo && v <= hi)
            return v;
    }
    switch (r.below(6))
    {
    case 0:
        return lo;
    case 1:
        return hi;
    case 2: {
        int64_t v = (int64_t)1 << r.below(62);
        v += r.range(-1, 1);
        if (r.coin())
            v = -v;
        return v < lo || v > hi ? r.range(lo, hi) : v;
    }
    case 3: {
        int64_t v = r.range(-3, 3);
        return v < lo || v > hi ? r.range(lo, hi) : v;
    }
    default:
        if (lo == INT64_MIN && hi == INT64_MAX)
            return (int64_t)r.u64();
        return r.range(lo, hi);
    }
}
template <typename T> T anyInt(Rng &r)
{
    if (sizeof(T) == 8)
        return (T)edgeInt(r, INT64_MIN, INT64_MAX);
    return (T)edgeInt(r, std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
}
// any double incl. infinities (NaN only on request)
inline double anyDouble(Rng &r, bool nan = false)
{
    if (!poolDoubles.empty() && r.coin(4))
    {
        double d = r.pick(poolDoubles);
        if (nan || !std::isnan(d))
            return d;
    }
    switch (r.below(nan ? 9 : 8))
    {
    case 0:
        return 0.0;
    case 1:
        return (double)r.range(-5, 5);
    case 2:
        return (double)r.range(-1000000, 1000000) / 1000.0;
    case 3:
        return r.coin() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
    case 4:
        return r.coin() ? std::numeric_limits<double>::max() : -std::numeric_limits<double>::max();
    case 5:
        return std::ldexp(r.unit() - 0.5, (int)r.range(-60, 60));
    case 6:
        return (double)(int32_t)r.u64() + (double)r.range(-2, 2) / 4;
    case 7: {
        double d;
        do
        {
            uint64_t b = r.u64();
            memcpy(&d, &b, 8);
        } while (std::isnan(d) || std::isinf(d));
        return d;
    }
    default:
        return std::nan("");
    }
}
inline double modest(Rng &r) { return (double)r.range(-2000000, 2000000) / 1000.0; }
inline std::string anyString(Rng &r, size_t maxlen)
{
    size_t n = r.coin(3) ? maxlen : r.below(maxlen + 1);
    std::string s;
    for (size_t i = 0; i < n; i++)
        s.push_back((char)r.range(1, 127));
    return s;
}
inline uint64_t bits(double d)
{
    uint64_t b;
    memcpy(&b, &d, 8);
    return b;
}
inline bool same(double a, double b) { return bits(a) == bits(b) || (std::isnan(a) && std::isnan(b)) || a == b; }
inline bool same(const copc::Vector3 &a, const copc::Vector3 &b)
{
    return same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z);
}
inline std::string str(double d)
{
    std::ostringstream s;
    s << std::setprecision(17) << d;
    return s.str();
}
inline std::string str(const copc::Vector3 &v) { return "(" + str(v.x) + "," + str(v.y) + "," + str(v.z) + ")"; }
inline std::string str(const copc::VoxelKey &k)
{
    return "(" + std::to_string(k.d) + "," + std::to_string(k.x) + "," + std::to_string(k.y) + "," +
           std::to_string(k.z) + ")";
}
[[noreturn]] inline void fail(const std::string &m) { throw Violation(m); }
#define REQ(c, m)                                                                                                      \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(c))                                                                                                      \
        {                                                                                                              \
            std::ostringstream _o;                                                                                     \
            _o << std::setprecision(17) << m << "   [" #c "]";                                                         \
            drv::fail(_o.str());                                                                                       \
        }                                                                                                              \
    } while (0)
// true if f throws a std exception
template <typename F> bool throws(F f)
{
    try
    {
        f();
    }
    catch (const Violation &)
    {
        throw;
    }
    catch (const std::exception &)
    {
        return true;
    }
    return false;
}
#define NOTE(m)                                                                                                        \
    do                                                                                                                 \
    {                                                                                                                  \
        std::ostringstream _o;                                                                                         \
        _o << std::setprecision(17) << m << "; ";                                                                      \
        drv::trace += _o.str();                                                                                        \
    } while (0)

struct Case
{
    const char *name;
    void (*fn)(Rng &);
    int weight;
};
extern std::vector<Case> cases; // filled by each driver

// ---------------------------------------------------------------- LAS helpers, written from the spec
inline int baseSize(int f) { return f == 6 ? 30 : f == 7 ? 36 : 38; }
inline int baseDims(int f) { return f == 6 ? 14 : f == 7 ? 17 : 18; }
struct Bytes
{
    std::string s;
    template <typename T> Bytes &le(T v)
    {
        for (size_t i = 0; i < sizeof(T); i++)
            s.push_back((char)(((uint64_t)v >> (8 * i)) & 0xff));
        return *this;
    }
    Bytes &d(double v) { return le<uint64_t>(bits(v)); }
    Bytes &str(const std::string &t, size_t n)
    {
        for (size_t i = 0; i < n; i++)
            s.push_back(i < t.size() ? t[i] : '\0');
        return *this;
    }
    Bytes &raw(const std::string &t)
    {
        s += t;
        return *this;
    }
};
template <typename T> T le(const std::string &s, size_t p)
{
    uint64_t v = 0;
    for (size_t i = 0; i < sizeof(T); i++)
        v |= (uint64_t)(uint8_t)s.at(p + i) << (8 * i);
    return (T)v;
}
inline double led(const std::string &s, size_t p)
{
    uint64_t v = le<uint64_t>(s, p);
    double d;
    memcpy(&d, &v, 8);
    return d;
}
// plain reference model of a point
struct RefPoint
{
    int fmt{6};
    int32_t xi{}, yi{}, zi{};
    double x{}, y{}, z{};
    uint16_t intensity{};
    uint8_t returns{}, flags{}, cls{}, user{};
    int16_t angle{};
    uint16_t source{};
    double gps{};
    uint16_t r{}, g{}, b{}, nir{};
    std::vector<uint8_t> eb;
    std::string record() const
    {
        Bytes o;
        o.le(xi).le(yi).le(zi).le(intensity).le(returns).le(flags).le(cls).le(user).le(angle).le(source).d(gps);
        if (fmt >= 7)
            o.le(r).le(g).le(b);
        if (fmt == 8)
            o.le(nir);
        for (auto e : eb)
            o.le(e);
        return o.s;
    }
};
inline RefPoint randRef(Rng &r, int fmt, int eb, const copc::Vector3 &scale, const copc::Vector3 &offset,
                        bool small = false)
{
    RefPoint p;
    p.fmt = fmt;
    p.xi = small ? (int32_t)r.range(-100000, 100000) : anyInt<int32_t>(r);
    p.yi = small ? (int32_t)r.range(-100000, 100000) : anyInt<int32_t>(r);
    p.zi = small ? (int32_t)r.range(-100000, 100000) : anyInt<int32_t>(r);
    p.x = p.xi * scale.x + offset.x;
    p.y = p.yi * scale.y + offset.y;
    p.z = p.zi * scale.z + offset.z;
    p.intensity = anyInt<uint16_t>(r);
    p.returns = anyInt<uint8_t>(r);
    p.flags = anyInt<uint8_t>(r);
    p.cls = anyInt<uint8_t>(r);
    p.user = anyInt<uint8_t>(r);
    p.angle = anyInt<int16_t>(r);
    p.source = anyInt<uint16_t>(r);
    p.gps = anyDouble(r);
    if (fmt >= 7)
    {
        p.r = anyInt<uint16_t>(r);
        p.g = anyInt<uint16_t>(r);
        p.b = anyInt<uint16_t>(r);
    }
    if (fmt == 8)
        p.nir = anyInt<uint16_t>(r);
    for (int i = 0; i < eb; i++)
        p.eb.push_back((uint8_t)r.u64());
    return p;
}
inline void fill(copc::las::Point &p, const RefPoint &q)
{
    p.X(q.x);
    p.Y(q.y);
    p.Z(q.z);
    p.Intensity(q.intensity);
    p.ReturnsBitField(q.returns);
    p.FlagsBitField(q.flags);
    p.Classification(q.cls);
    p.UserData(q.user);
    p.ScanAngle(q.angle);
    p.PointSourceId(q.source);
    p.GPSTime(q.gps);
    if (q.fmt >= 7)
    {
        p.Red(q.r);
        p.Green(q.g);
        p.Blue(q.b);
    }
    if (q.fmt == 8)
        p.Nir(q.nir);
    p.ExtraBytes(q.eb);
}
inline void samePoint(const copc::las::Point &p, const RefPoint &q, const char *what, bool coords = true)
{
    REQ(p.PointFormatId() == q.fmt, what << ": format");
    REQ(p.PointRecordLength() == (uint32_t)baseSize(q.fmt) + q.eb.size(), what << ": record length");
    if (coords)
    {
        REQ(same(p.X(), q.x), what << ": X " << p.X() << " vs " << q.x);
        REQ(same(p.Y(), q.y), what << ": Y " << p.Y() << " vs " << q.y);
        REQ(same(p.Z(), q.z), what << ": Z " << p.Z() << " vs " << q.z);
    }
    REQ(p.Intensity() == q.intensity, what << ": intensity");
    REQ(p.ReturnsBitField() == q.returns, what << ": returns byte");
    REQ(p.FlagsBitField() == q.flags, what << ": flags byte");
    REQ(p.Classification() == q.cls, what << ": classification");
    REQ(p.UserData() == q.user, what << ": user data");
    REQ(p.ScanAngle() == q.angle, what << ": scan angle");
    REQ(p.PointSourceId() == q.source, what << ": point source id");
    REQ(bits(p.GPSTime()) == bits(q.gps), what << ": gps time");
    REQ(p.HasRgb() == (q.fmt >= 7) && p.HasNir() == (q.fmt == 8), what << ": optional dimensions");
    if (q.fmt >= 7)
        REQ(p.Red() == q.r && p.Green() == q.g && p.Blue() == q.b, what << ": rgb");
    if (q.fmt == 8)
        REQ(p.Nir() == q.nir, what << ": nir");
    REQ(p.ExtraBytes() == q.eb, what << ": extra bytes");
}
inline copc::Vector3 randScale(Rng &r)
{
    auto one = [&]() {
        static const std::vector<double> c{0.01, 0.001, 1, 0.5, 0.25, 2, 0.1, 1e-7, 1000, -0.01};
        return r.pick(c);
    };
    return {one(), one(), one()};
}
inline copc::Vector3 randOffset(Rng &r)
{
    auto one = [&]() { return r.coin(3) ? 0.0 : (double)r.range(-1000000, 1000000) / (r.coin() ? 1 : 8); };
    return {one(), one(), one()};
}
inline int randFmt(Rng &r) { return (int)r.range(6, 8); }
inline int randEb(Rng &r)
{
    static const std::vector<int> c{0, 0, 1, 2, 3, 5, 8, 24, 100, 192, 217, 218, 219, 224, 225, 226, 255, 256, 300, 1000};
    return r.coin(40) ? 65535 - 38 : r.coin(4) ? (int)r.below(400) : r.pick(c);
}
inline copc::VoxelKey randKey(Rng &r, int maxd = 30)
{
    int d = (int)r.range(0, maxd);
    if (r.coin(3))
        d = (int)r.range(0, std::min(4, maxd));
    auto one = [&]() -> int32_t {
        int64_t n = (int64_t)1 << d;
        switch (r.below(4))
        {
        case 0:
            return 0;
        case 1:
            return (int32_t)(n - 1);
        default:
            return (int32_t)r.range(0, n - 1);
        }
    };
    return {d, one(), one(), one()};
}
} // namespace drv
namespace copc
{
inline bool operator<(const VoxelKey &a, const VoxelKey &b)
{
    return std::tie(a.d, a.x, a.y, a.z) < std::tie(b.d, b.x, b.y, b.z);
}
} // namespace copc

// C25: descriptors and VLR headers
#include "iofile.hpp"
using namespace drv;
using namespace copc;
using F = las::EbVlr::ebfield;
static void eq(Rng &r)
{
    F a = randEbField(r, false), b = a;
    REQ(a == b, "a copy compares different");
    int w = (int)r.below(10), i = (int)r.below(3);
    auto flip = [&](auto &x) { ((unsigned char *)&x)[r.below(sizeof(x))] ^= (unsigned char)(1 << r.below(8)); };
    NOTE("change field " << w << " item " << i);
    switch (w)
    {
    case 0: flip(b.reserved[i % 2]); break;
    case 1: flip(b.data_type); break;
    case 2: flip(b.options); break;
    case 3:
        if (r.coin())
            b.name += "x";
        else if (!b.name.empty())
            b.name[b.name.size() - 1] ^= 1;
        else
            b.name = "n";
        break;
    case 4: flip(b.no_data[i]); break;
    case 5: flip(b.minval[i]); break;
    case 6: flip(b.maxval[i]); break;
    case 7: b.scale[i] = b.scale[i] + 1; break;
    case 8: b.offset[i] = b.offset[i] - 1; break;
    default: b.description = b.description.substr(0, b.description.size() / 2) + "!";
        if (b.description == a.description)
            b.description += "?";
    }
    REQ(!(a == b) && !(b == a), "descriptors that differ in field " << w << " item " << i << " compare equal");
}
template <typename H> static H rnd(Rng &r)
{
    H h;
    h.reserved = anyInt<uint16_t>(r);
    h.user_id = anyString(r, 16);
    h.record_id = anyInt<uint16_t>(r);
    h.data_length = (decltype(h.data_length))r.u64();
    h.description = anyString(r, 32);
    return h;
}
template <typename A, typename B> static void sameH(const A &a, const B &b, const char *what)
{
    NOTE(what);
    REQ(a.reserved == b.reserved, what << ": reserved");
    REQ(a.user_id == b.user_id, what << ": user id");
    REQ(a.record_id == b.record_id, what << ": record id");
    REQ((uint64_t)a.data_length == (uint64_t)b.data_length, what << ": data length");
    REQ(a.description == b.description, what << ": description");
}
static void headers(Rng &r)
{
    auto v = rnd<lazperf::vlr_header>(r);
    auto e = rnd<lazperf::evlr_header>(r);
    las::VlrHeader a(v), b(e);
    sameH(a, v, "from VLR");
    sameH(b, e, "from EVLR");
    REQ(!a.evlr_flag && b.evlr_flag, "VLR or EVLR");
    las::VlrHeader ca(a), cb(b), as;
    sameH(ca, a, "copy");
    sameH(cb, b, "copy");
    REQ(!ca.evlr_flag && cb.evlr_flag, "VLR or EVLR of a copy");
    as = b;
    sameH(as, b, "assigned");
    REQ(as.evlr_flag, "VLR or EVLR of an assigned header");
    sameH(a.ToLazperfVlrHeader(), v, "VLR back");
    sameH(b.ToLazperfEvlrHeader(), e, "EVLR back");
    sameH(a.ToLazperfEvlrHeader(), v, "VLR to EVLR");
    b.data_length &= 0xffff;
    sameH(b.ToLazperfVlrHeader(), b, "EVLR to VLR");
}
std::vector<Case> drv::cases{{"eq", eq, 4}, {"headers", headers, 2}};

// C13: record sizes and dimension tables
#include "iofile.hpp"
using namespace drv;
using namespace copc;
static void tables(Rng &r)
{
    for (int f = -128; f < 128; f++)
    {
        int8_t g = (int8_t)f;
        if (f >= 6 && f <= 8)
        {
            REQ(las::PointBaseByteSize(g) == baseSize(f) && las::PointBaseNumberDimensions(g) == baseDims(f), "tables of format " << f);
            REQ(las::FormatHasRgb(f) == (f >= 7) && las::FormatHasNir(f) == (f == 8), "dimensions of format " << f);
            int eb = r.coin() ? (int)r.below(65536 - baseSize(f)) : randEb(r);
            NOTE("format " << f << " extra " << eb);
            REQ(las::PointByteSize(g, eb) == baseSize(f) + eb, "record length");
            REQ(las::EbByteSize(g, baseSize(f) + eb) == eb, "extra-byte size");
            las::LasHeader h(g, baseSize(f) + eb, {1, 1, 1}, {0, 0, 0}, false);
            REQ(h.EbByteSize() == eb, "header extra-byte size");
            las::Point p(g, (uint16_t)eb);
            REQ(p.PointRecordLength() == (uint32_t)(baseSize(f) + eb) && p.EbByteSize() == eb, "point record length");
            las::Points ps(g, (uint16_t)eb);
            REQ(ps.PointRecordLength() == (uint32_t)(baseSize(f) + eb) && ps.EbByteSize() == eb, "collection record length");
        }
        else
        {
            REQ(throws([&] { las::PointBaseByteSize(g); }) && throws([&] { las::PointBaseNumberDimensions(g); }), "format " << f << " accepted");
            REQ(throws([&] { las::PointByteSize(g, 0); }) && throws([&] { las::EbByteSize(g, 100); }), "format " << f << " accepted (sizes)");
            REQ(throws([&] { las::FormatHasRgb((uint8_t)g); }) && throws([&] { las::FormatHasNir((uint8_t)g); }), "format " << f << " accepted (dimensions)");
        }
    }
}
static void descriptors(Rng &r)
{
    std::vector<las::EbVlr::ebfield> v;
    int n = (int)r.below(12), sum = 0, bad = 0;
    for (int i = 0; i < n; i++)
    {
        auto f = randEbField(r, false);
        if (r.coin(20))
        {
            f.data_type = (uint8_t)r.range(31, 255);
            bad++;
        }
        NOTE("type " << (int)f.data_type << " options " << (int)f.options);
        if (f.data_type <= 30)
            sum += ebTypeSize(f.data_type, f.options);
        v.push_back(f);
    }
    if (bad)
        REQ(throws([&] { las::NumBytesFromExtraBytes(v); }), "illegal data type accepted");
    else
        REQ(las::NumBytesFromExtraBytes(v) == sum, "extra bytes " << las::NumBytesFromExtraBytes(v) << " instead of " << sum);
}
std::vector<Case> drv::cases{{"tables", tables, 1}, {"descriptors", descriptors, 9}};

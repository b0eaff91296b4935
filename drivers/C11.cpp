#include "common.hpp"
using namespace drv;
using namespace copc;
using namespace copc::las;
static std::string z(const char *p, size_t n) { return std::string(p, strnlen(p, n)); }
static void codec(Rng &r)
{
    int f = randFmt(r), eb = randEb(r);
    uint16_t len = (uint16_t)(baseSize(f) + eb);
    Vector3 s{anyDouble(r), anyDouble(r), anyDouble(r)}, o{anyDouble(r), anyDouble(r), anyDouble(r)};
    bool copc = r.coin();
    LasHeader h(f, len, s, o, copc);
    h.file_source_id = anyInt<uint16_t>(r);
    h.global_encoding = anyInt<uint16_t>(r);
    h.creation_day = anyInt<uint16_t>(r);
    h.creation_year = anyInt<uint16_t>(r);
    h.max = {anyDouble(r), anyDouble(r), anyDouble(r)};
    h.min = {anyDouble(r), anyDouble(r), anyDouble(r)};
    for (auto &v : h.points_by_return)
        v = anyInt<uint64_t>(r);
    std::string g = anyString(r, 16), si = anyString(r, 32), gs = anyString(r, 32);
    h.GUID(g);
    h.SystemIdentifier(si);
    h.GeneratingSoftware(gs);
    REQ(h.GUID() == g && h.SystemIdentifier() == si && h.GeneratingSoftware() == gs, "text setters");
    REQ(throws([&] { h.GUID(std::string(r.range(17, 60), 'x')); }), "long GUID accepted");
    REQ(throws([&] { h.SystemIdentifier(std::string(r.range(33, 60), 'x')); }), "long system identifier accepted");
    REQ(throws([&] { h.GeneratingSoftware(std::string(r.range(33, 60), 'x')); }), "long software accepted");
    REQ(h.GUID() == g && h.SystemIdentifier() == si && h.GeneratingSoftware() == gs, "text after refused set");
    if (r.coin(4))
    {
        auto e = h.global_encoding;
        h.SetGpsTimeBit();
        REQ(h.global_encoding == (e | 1), "SetGpsTimeBit");
    }
    uint32_t po = anyInt<uint32_t>(r), ec = anyInt<uint32_t>(r);
    uint64_t pc = r.coin() ? (uint64_t)r.range(0xFFFFFFF0ll, 0x10000000Fll) : anyInt<uint64_t>(r), eo = anyInt<uint64_t>(r);
    bool ebf = r.coin(), ext = r.coin();
    NOTE("format " << f << " copc " << copc << " eb " << ebf << " ext " << ext << " count " << pc << " guid " << g.size() << " sys " << si.size() << " soft " << gs.size());
    lazperf::header14 w;
    bool t = throws([&] { w = h.ToLazPerf(po, pc, eo, ec, ebf, ext); });
    REQ(t == (ext && !copc), "extended statistics outside COPC must be refused");
    if (t)
        return;
    REQ(w.file_source_id == h.file_source_id && w.global_encoding == (h.global_encoding | 0x10), "source id / encoding");
    REQ(z(w.guid, 16) == g && z(w.system_identifier, 32) == si && z(w.generating_software, 32) == gs, "texts on disk");
    REQ(w.version.major == 1 && w.version.minor == 4 && w.header_size == 375 && memcmp(w.magic, "LASF", 4) == 0, "version/size");
    REQ(w.creation.day == h.creation_day && w.creation.year == h.creation_year, "creation");
    REQ(w.point_offset == po && w.evlr_offset == eo && w.evlr_count == ec && w.point_count_14 == pc, "positions and counts");
    REQ(w.vlr_count == 1u + ebf + (copc ? 2 : 0) + ext, "vlr count " << w.vlr_count);
    REQ(w.point_format_id == (f | 0x80) && w.point_record_length == len, "format");
    REQ(w.point_count == (pc > 0xFFFFFFFFull ? 0 : pc), "legacy count " << w.point_count);
    for (int i = 0; i < 5; i++)
        REQ(w.points_by_return[i] == 0, "legacy return counts");
    for (int i = 0; i < 15; i++)
        REQ(w.points_by_return_14[i] == h.points_by_return[i], "return counts");
    REQ(same({w.scale.x, w.scale.y, w.scale.z}, s) && same({w.offset.x, w.offset.y, w.offset.z}, o), "scale/offset");
    REQ(same({w.maxx, w.maxy, w.maxz}, h.max) && same({w.minx, w.miny, w.minz}, h.min), "bounds");
    w.point_format_id &= 0x3f;
    LasHeader u = LasHeader::FromLazPerf(w);
    REQ(u.file_source_id == h.file_source_id && u.global_encoding == (h.global_encoding | 0x10), "read source id / encoding");
    REQ(u.GUID() == g, "read GUID '" << u.GUID() << "' instead of '" << g << "'");
    REQ(u.SystemIdentifier() == si, "read system identifier");
    REQ(u.GeneratingSoftware() == gs, "read generating software");
    REQ(u.creation_day == h.creation_day && u.creation_year == h.creation_year, "read creation");
    REQ(u.PointFormatId() == f && u.PointRecordLength() == len && u.PointOffset() == po && u.PointCount() == pc, "read point layout");
    REQ(u.VlrCount() == w.vlr_count && u.EvlrCount() == ec && u.EvlrOffset() == eo, "read vlr positions");
    REQ(same(u.Scale(), s) && same(u.Offset(), o) && same(u.min, h.min) && same(u.max, h.max), "read vectors");
    REQ(u.points_by_return == h.points_by_return, "read return counts");
}
static void refuse(Rng &r)
{
    lazperf::header14 w;
    w.global_encoding = anyInt<uint16_t>(r);
    w.version.minor = r.coin(4) ? (uint8_t)r.range(0, 6) : 4;
    w.version.major = r.coin(6) ? (uint8_t)r.range(0, 3) : 1;
    w.header_size = r.coin(4) ? (r.coin() ? anyInt<uint16_t>(r) : 375 + r.range(-1, 1)) : 375;
    w.point_format_id = r.coin(3) ? anyInt<uint8_t>(r) : (uint8_t)randFmt(r);
    w.point_record_length = 40;
    bool bad = !(w.global_encoding & 0x10) || w.version.major != 1 || w.version.minor != 4 || w.header_size != 375 || w.point_format_id < 6 || w.point_format_id > 8;
    NOTE("encoding " << w.global_encoding << " version " << (int)w.version.major << "." << (int)w.version.minor << " size " << w.header_size << " format " << (int)w.point_format_id);
    REQ(throws([&] { LasHeader::FromLazPerf(w); }) == bad, "FromLazPerf refusal must be " << bad);
}
std::vector<Case> drv::cases{{"codec", codec, 3}, {"refuse", refuse, 1}};

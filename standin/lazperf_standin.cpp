// Implementation of the laz-perf stand-in (see include/lazperf/vlr.hpp).  The codec is not LAZ: a
// chunk is the raw records XOR-ed with a rolling mask and followed by an 8 byte trailer that carries
// the number of records, so chunk sizes differ from raw sizes and a wrong count, offset or record
// size is noticed by the decoder.
#include <algorithm>
#include <cstring>
#include <stdexcept>
#include <string>

#include "lazperf/filestream.hpp"
#include "lazperf/header.hpp"
#include "lazperf/lazperf.hpp"
#include "lazperf/readers.hpp"
#include "lazperf/vlr.hpp"

namespace lazperf
{
namespace
{
template <typename T> void put(std::ostream &o, const T &v) { o.write(reinterpret_cast<const char *>(&v), sizeof(T)); }
template <typename T> T get(std::istream &i)
{
    T v{};
    i.read(reinterpret_cast<char *>(&v), sizeof(T));
    return v;
}
void putstr(std::ostream &o, const std::string &s, size_t n)
{
    std::string t = s.substr(0, n);
    t.resize(n, '\0');
    o.write(t.data(), n);
}
std::string getstr(std::istream &i, size_t n)
{
    std::string t(n, '\0');
    i.read(&t[0], n);
    size_t l = strnlen(t.data(), n);
    t.resize(l);
    return t;
}
} // namespace

vlr_header vlr_header::create(std::istream &in)
{
    vlr_header h;
    h.read(in);
    return h;
}
void vlr_header::read(std::istream &in)
{
    reserved = get<uint16_t>(in);
    user_id = getstr(in, 16);
    record_id = get<uint16_t>(in);
    data_length = get<uint16_t>(in);
    description = getstr(in, 32);
}
void vlr_header::write(std::ostream &out) const
{
    put(out, reserved);
    putstr(out, user_id, 16);
    put(out, record_id);
    put(out, data_length);
    putstr(out, description, 32);
}
evlr_header evlr_header::create(std::istream &in)
{
    evlr_header h;
    h.read(in);
    return h;
}
void evlr_header::read(std::istream &in)
{
    reserved = get<uint16_t>(in);
    user_id = getstr(in, 16);
    record_id = get<uint16_t>(in);
    data_length = get<uint64_t>(in);
    description = getstr(in, 32);
}
void evlr_header::write(std::ostream &out) const
{
    put(out, reserved);
    putstr(out, user_id, 16);
    put(out, record_id);
    put(out, data_length);
    putstr(out, description, 32);
}

vlr::~vlr() {}

laz_vlr::laz_vlr() {}
laz_vlr::laz_vlr(int f, int e, uint32_t c) : format(f), eb_count(e), chunk_size(c) {}
uint64_t laz_vlr::size() const { return 34 + 6 * (1 + (format >= 7 ? 1 : 0) + (eb_count > 0 ? 1 : 0)); }
vlr_header laz_vlr::header() const { return {0, "laszip encoded", 22204, (uint16_t)size(), "lazperf variant"}; }
evlr_header laz_vlr::eheader() const { return {0, "laszip encoded", 22204, size(), "lazperf variant"}; }
void laz_vlr::write(std::ostream &out) const
{
    std::string s(size(), '\0');
    uint16_t compressor = 3;
    memcpy(&s[0], &compressor, 2);
    memcpy(&s[12], &chunk_size, 4);
    uint16_t n = (size() - 34) / 6;
    memcpy(&s[32], &n, 2);
    out.write(s.data(), s.size());
}

void eb_vlr::ebfield::read(std::istream &in)
{
    in.read((char *)reserved, 2);
    data_type = get<uint8_t>(in);
    options = get<uint8_t>(in);
    name = getstr(in, 32);
    in.read((char *)unused, 4);
    in.read((char *)no_data, 24);
    in.read((char *)minval, 24);
    in.read((char *)maxval, 24);
    in.read((char *)scale, 24);
    in.read((char *)offset, 24);
    description = getstr(in, 32);
}
void eb_vlr::ebfield::write(std::ostream &out) const
{
    out.write((const char *)reserved, 2);
    put(out, data_type);
    put(out, options);
    putstr(out, name, 32);
    out.write((const char *)unused, 4);
    out.write((const char *)no_data, 24);
    out.write((const char *)minval, 24);
    out.write((const char *)maxval, 24);
    out.write((const char *)scale, 24);
    out.write((const char *)offset, 24);
    putstr(out, description, 32);
}
eb_vlr::eb_vlr() {}
eb_vlr::eb_vlr(int n) : items(n)
{
    for (int i = 0; i < n; i++)
    {
        items[i].data_type = 1;
        items[i].name = "FIELD_" + std::to_string(i);
    }
}
eb_vlr eb_vlr::create(std::istream &in, int byteSize)
{
    eb_vlr v;
    v.read(in, byteSize);
    return v;
}
void eb_vlr::read(std::istream &in, int byteSize)
{
    items.clear();
    for (int i = 0; i < byteSize / 192; i++)
    {
        ebfield f;
        f.read(in);
        items.push_back(f);
    }
}
void eb_vlr::write(std::ostream &out) const
{
    for (auto &f : items)
        f.write(out);
}
uint64_t eb_vlr::size() const { return 192 * items.size(); }
vlr_header eb_vlr::header() const { return {0, "LASF_Spec", 4, (uint16_t)size(), ""}; }
evlr_header eb_vlr::eheader() const { return {0, "LASF_Spec", 4, size(), ""}; }

wkt_vlr::wkt_vlr() {}
wkt_vlr::wkt_vlr(const std::string &s) : wkt(s) {}
wkt_vlr wkt_vlr::create(std::istream &in, int byteSize)
{
    wkt_vlr v;
    v.read(in, byteSize);
    return v;
}
void wkt_vlr::read(std::istream &in, int byteSize)
{
    std::string t(byteSize, '\0');
    in.read(&t[0], byteSize);
    wkt = t;
}
void wkt_vlr::write(std::ostream &out) const { out.write(wkt.data(), wkt.size()); }
uint64_t wkt_vlr::size() const { return wkt.size(); }
vlr_header wkt_vlr::header() const { return {0, "LASF_Projection", 2112, (uint16_t)size(), ""}; }
evlr_header wkt_vlr::eheader() const { return {0, "LASF_Projection", 2112, size(), ""}; }

copc_info_vlr::copc_info_vlr() {}
copc_info_vlr copc_info_vlr::create(std::istream &in)
{
    copc_info_vlr v;
    v.read(in);
    return v;
}
void copc_info_vlr::read(std::istream &in)
{
    center_x = get<double>(in);
    center_y = get<double>(in);
    center_z = get<double>(in);
    halfsize = get<double>(in);
    spacing = get<double>(in);
    root_hier_offset = get<uint64_t>(in);
    root_hier_size = get<uint64_t>(in);
    gpstime_minimum = get<double>(in);
    gpstime_maximum = get<double>(in);
    in.read((char *)reserved, sizeof(reserved));
}
void copc_info_vlr::write(std::ostream &out) const
{
    put(out, center_x);
    put(out, center_y);
    put(out, center_z);
    put(out, halfsize);
    put(out, spacing);
    put(out, root_hier_offset);
    put(out, root_hier_size);
    put(out, gpstime_minimum);
    put(out, gpstime_maximum);
    out.write((const char *)reserved, sizeof(reserved));
}
uint64_t copc_info_vlr::size() const { return 160; }
vlr_header copc_info_vlr::header() const { return {0, "copc", 1, (uint16_t)size(), "COPC info VLR"}; }
evlr_header copc_info_vlr::eheader() const { return {0, "copc", 1, size(), "COPC info VLR"}; }

header14 header14::create(std::istream &in)
{
    header14 h;
    h.read(in);
    return h;
}
#define F14(X)                                                                                                         \
    X(magic) X(file_source_id) X(global_encoding) X(guid) X(version.major) X(version.minor) X(system_identifier)       \
        X(generating_software) X(creation.day) X(creation.year) X(header_size) X(point_offset) X(vlr_count)            \
            X(point_format_id) X(point_record_length) X(point_count) X(points_by_return) X(scale.x) X(scale.y)         \
                X(scale.z) X(offset.x) X(offset.y) X(offset.z) X(maxx) X(minx) X(maxy) X(miny) X(maxz) X(minz)         \
                    X(wave_offset) X(evlr_offset) X(evlr_count) X(point_count_14) X(points_by_return_14)
void header14::read(std::istream &in)
{
#define R(f) in.read((char *)&f, sizeof(f));
    F14(R)
#undef R
}
void header14::write(std::ostream &out) const
{
#define W(f) out.write((const char *)&f, sizeof(f));
    F14(W)
#undef W
}
int header14::ebCount() const
{
    static const int base[] = {20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67};
    int f = pointFormat();
    return f <= 10 ? point_record_length - base[f] : 0;
}

las_compressor::~las_compressor() {}
las_decompressor::~las_decompressor() {}

namespace
{
int recordSize(int format, int eb)
{
    switch (format)
    {
    case 6:
        return 30 + eb;
    case 7:
        return 36 + eb;
    case 8:
        return 38 + eb;
    }
    throw std::runtime_error("stand-in codec: unsupported format");
}
struct Comp : las_compressor
{
    OutputCb cb;
    int size;
    uint32_t n{0};
    Comp(OutputCb c, int f, int e) : cb(c), size(recordSize(f, e)) {}
    const char *compress(const char *in) override
    {
        std::vector<unsigned char> b(in, in + size);
        for (int i = 0; i < size; i++)
            b[i] ^= (unsigned char)(0x5a + 7 * n + i);
        cb(b.data(), b.size());
        n++;
        return in + size;
    }
    void done() override
    {
        uint32_t t[2] = {0xC0FFEE01u, n};
        cb((const unsigned char *)t, 8);
    }
};
struct Decomp : las_decompressor
{
    InputCb cb;
    int size;
    uint32_t n{0};
    Decomp(InputCb c, int f, int e) : cb(c), size(recordSize(f, e)) {}
    char *decompress(char *out) override
    {
        std::vector<unsigned char> b(size);
        cb(b.data(), b.size());
        for (int i = 0; i < size; i++)
            out[i] = (char)(b[i] ^ (unsigned char)(0x5a + 7 * n + i));
        n++;
        return out + size;
    }
};
} // namespace

las_compressor::ptr build_las_compressor(OutputCb cb, int f, int e) { return std::make_shared<Comp>(cb, f, e); }
las_decompressor::ptr build_las_decompressor(InputCb cb, int f, int e) { return std::make_shared<Decomp>(cb, f, e); }

void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool)
{
    for (auto &c : chunks)
    {
        cb((const unsigned char *)&c.count, 8);
        cb((const unsigned char *)&c.offset, 8);
    }
}
std::vector<chunk> decompress_chunk_table(InputCb cb, size_t n, bool)
{
    std::vector<chunk> v;
    for (size_t i = 0; i < n; i++)
    {
        chunk c;
        cb((unsigned char *)&c.count, 8);
        cb((unsigned char *)&c.offset, 8);
        v.push_back(c);
    }
    return v;
}

struct OutFileStream::Private
{
    std::ostream &o;
};
OutFileStream::OutFileStream(std::ostream &o) : p_(new Private{o}) {}
OutFileStream::~OutFileStream() {}
OutputCb OutFileStream::cb()
{
    std::ostream *o = &p_->o;
    return [o](const unsigned char *b, size_t n) { o->write((const char *)b, n); };
}

struct InFileStream::Private
{
    std::istream &in;
    std::vector<unsigned char> buf;
    size_t off{0};
    size_t filled{0};
    void fetch(unsigned char *out, size_t n)
    {
        while (n)
        {
            if (off == filled)
            {
                buf.resize(1 << 16);
                in.read((char *)buf.data(), buf.size());
                filled = in.gcount();
                off = 0;
                if (filled == 0)
                    throw std::runtime_error("Unexpected end of file.");
            }
            size_t k = std::min(n, filled - off);
            memcpy(out, buf.data() + off, k);
            off += k;
            out += k;
            n -= k;
        }
    }
};
InFileStream::InFileStream(std::istream &in) : p_(new Private{in}) {}
InFileStream::~InFileStream() {}
void InFileStream::reset() { p_->off = p_->filled = 0; }
InputCb InFileStream::cb()
{
    Private *p = p_.get();
    return [p](unsigned char *b, size_t n) { p->fetch(b, n); };
}

namespace reader
{
struct basic_file::Private
{
    header14 h;
    std::istream *in{nullptr};
    std::vector<chunk> chunks;
    std::unique_ptr<InFileStream> stream;
    las_decompressor::ptr dec;
    size_t cur{0};
    uint64_t left{0};
    uint64_t nextOffset{0};
};
basic_file::basic_file() : p_(new Private) {}
basic_file::~basic_file() {}
bool basic_file::open(std::istream &in)
{
    p_->in = &in;
    in.seekg(0);
    p_->h.read(in);
    if (!in.good() || memcmp(p_->h.magic, "LASF", 4) != 0)
        throw std::runtime_error("Invalid LAS file. Incorrect magic number.");
    bool comp = p_->h.compressed();
    p_->h.point_format_id &= 0x3f;
    if (comp)
    {
        in.seekg(p_->h.point_offset);
        uint64_t tab = get<uint64_t>(in);
        in.seekg(tab);
        get<uint32_t>(in);
        uint32_t n = get<uint32_t>(in);
        if (!in.good() || n > (1u << 24))
            throw std::runtime_error("Couldn't read chunk table.");
        InFileStream s(in);
        p_->chunks = decompress_chunk_table(s.cb(), n, true);
        in.clear();
        p_->nextOffset = p_->h.point_offset + 8;
    }
    return true;
}
uint64_t basic_file::pointCount() const { return p_->h.point_count_14; }
const header14 &basic_file::header() const { return p_->h; }
void basic_file::readPoint(char *out)
{
    while (p_->left == 0)
    {
        if (p_->cur >= p_->chunks.size())
            throw std::runtime_error("stand-in reader: no more points");
        p_->in->clear();
        p_->in->seekg(p_->nextOffset);
        p_->stream.reset(new InFileStream(*p_->in));
        p_->dec = build_las_decompressor(p_->stream->cb(), p_->h.pointFormat(), p_->h.ebCount());
        p_->left = p_->chunks[p_->cur].count;
        p_->nextOffset += p_->chunks[p_->cur].offset;
        p_->cur++;
    }
    p_->dec->decompress(out);
    p_->left--;
}
generic_file::generic_file(std::istream &in) { open(in); }
generic_file::~generic_file() {}
} // namespace reader
} // namespace lazperf

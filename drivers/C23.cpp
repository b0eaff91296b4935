// C23: compression framing
#include "iofile.hpp"
using namespace drv;
using namespace copc;
static std::string randBytes(Rng &r, size_t n)
{
    std::string s;
    for (size_t i = 0; i < n; i++)
        s.push_back((char)r.u64());
    return s;
}
static las::LasHeader headerOf(int fmt, int eb)
{
    return las::LasHeader((int8_t)fmt, (uint16_t)(baseSize(fmt) + eb), Vector3(0.01, 0.01, 0.01), Vector3(0, 0, 0), true);
}
static void compress(Rng &r)
{
    int fmt = randFmt(r), eb = randEb(r), rec = baseSize(fmt) + eb;
    size_t n = r.coin(4) ? r.below(3) : r.below(rec > 3000 ? 4 : 40);
    auto raw = randBytes(r, n * rec);
    NOTE("format " << fmt << " extra bytes " << eb << " records " << n);
    auto h = headerOf(fmt, eb);
    auto want = encodeChunk(raw, rec);
    std::ostringstream o1, o2;
    o1 << "prefix";
    REQ(laz::Compressor::CompressBytes(o1, (int8_t)fmt, (uint16_t)eb, chars(raw)) == (int32_t)n, "returned count");
    REQ(o1.str() == "prefix" + want, "stream variant");
    REQ(laz::Compressor::CompressBytes(o2, h, chars(raw)) == (int32_t)n, "returned count (header)");
    REQ(o2.str() == want, "stream variant with header");
    REQ(strOf(laz::Compressor::CompressBytes(chars(raw), (int8_t)fmt, (uint16_t)eb)) == want, "buffer variant");
    auto in = chars(raw);
    REQ(strOf(laz::Compressor::CompressBytes(in, h)) == want, "buffer variant with header");
    auto bad = chars(raw);
    size_t d = 1 + r.below(rec - 1);
    if (r.coin() && bad.size() > d)
        bad.resize(bad.size() - d);
    else
        bad.resize(bad.size() + d);
    std::ostringstream o3;
    REQ(throws([&] { laz::Compressor::CompressBytes(o3, (int8_t)fmt, (uint16_t)eb, bad); }), "a buffer of " << bad.size() << " bytes was accepted");
}
static void decompress(Rng &r)
{
    int fmt = randFmt(r), eb = randEb(r), rec = baseSize(fmt) + eb;
    size_t n = r.below(rec > 3000 ? 4 : 40);
    auto raw = randBytes(r, n * rec);
    size_t ask = r.coin() ? n : r.below(n + 1);
    NOTE("format " << fmt << " extra bytes " << eb << " records " << n << " asked " << ask);
    auto h = headerOf(fmt, eb);
    auto enc = encodeChunk(raw, rec);
    auto want = raw.substr(0, ask * rec);
    int32_t c = (int32_t)ask;
    REQ(strOf(laz::Decompressor::DecompressBytes(chars(enc), (int8_t)fmt, (uint16_t)eb, c)) == want, "buffer variant");
    REQ(strOf(laz::Decompressor::DecompressBytes(chars(enc), h, c)) == want, "buffer variant with header");
    std::istringstream i1("xyz" + enc), i2("xyz" + enc);
    i1.seekg(3), i2.seekg(3);
    REQ(strOf(laz::Decompressor::DecompressBytes(i1, (int8_t)fmt, (uint16_t)eb, c)) == want, "stream variant");
    REQ(strOf(laz::Decompressor::DecompressBytes(i2, h, c)) == want, "stream variant with header");
    REQ(i1.good() && i2.good(), "the stream is left in a failed state");
    REQ(strOf(laz::Decompressor::DecompressBytes(laz::Compressor::CompressBytes(chars(raw), (int8_t)fmt, (uint16_t)eb), (int8_t)fmt, (uint16_t)eb, (int)n)) == raw, "round trip");
}
static void lazRead(Rng &r)
{
    FileModel m;
    m.copc = false;
    randHeader(m, r);
    m.copc = false;
    m.extended = m.hasExtents = false;
    if (r.coin(3))
    {
        m.items.clear();
        m.ebLen = randEb(r) % 3000;
    }
    int n = (int)r.below(4);
    for (int i = 0; i < n; i++)
    {
        MNode nd;
        nd.key = {0, 0, 0, 0};
        randPoints(m, nd, r, 1 + (int)r.below(5), false);
        m.nodes.push_back(nd);
    }
    buildFile(m, r, {});
    noteModel(m);
    std::string want;
    for (int i : m.chunkOrder)
        want += m.nodes[i].raw;
    std::istringstream in(m.bytes);
    laz::LazReader rd(&in);
    REQ(strOf(rd.GetPointData()) == want, "sequential data");
}
std::vector<Case> drv::cases{{"compress", compress, 3}, {"decompress", decompress, 3}, {"laz", lazRead, 1}};

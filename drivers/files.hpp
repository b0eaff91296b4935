// The file wrappers against the stream classes: FileWriter, FileReader, LazFileWriter and LazFileReader own a file stream and
// must behave like Writer, Reader, LazWriter and LazReader on a stream, in a scratch directory removed afterwards.
#pragma once
#include "iofile.hpp"
#include "scenario.hpp"
#include <unistd.h>
namespace drv
{
struct Scratch
{
    char dir[32] = "/tmp/copcdrvXXXXXX";
    std::string path;
    Scratch()
    {
        if (!mkdtemp(dir))
            throw std::runtime_error("no scratch directory");
        path = std::string(dir) + "/f.laz";
    }
    ~Scratch()
    {
        unlink(path.c_str());
        rmdir(dir);
    }
    std::string bytes() const
    {
        std::ifstream f(path, std::ios::binary);
        return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
    }
};
template <class W> void finish(std::unique_ptr<W> &w, int how)
{
    if (how > 0)
        w->Close();
    if (how > 1)
        w->Close();
}
inline void copcWrappers(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    m.hasExtents = true;
    if (m.items.empty())
        m.ebLen = 0;
    noteModel(m);
    auto cfg = configOf(m);
    std::optional<int8_t> fmt;
    std::optional<copc::Vector3> scale, offset;
    std::optional<std::string> wkt;
    std::optional<copc::las::EbVlr> eb;
    std::optional<bool> ext;
    if (r.coin(3)) scale = copc::Vector3(0.5, 0.25, 0.125);
    if (r.coin(3)) offset = copc::Vector3(1, 2, 3);
    if (r.coin(3)) wkt = r.coin() ? "" : "other";
    if (r.coin(4)) ext = r.coin();
    if (r.coin(4)) fmt = (int8_t)(6 + r.below(3));
    if (r.coin(4)) { eb = copc::las::EbVlr(1); eb->items[0].data_type = 1; eb->items[0].name = "e"; }
    int how = (int)r.below(3), n = (int)r.below(4);
    NOTE("close mode " << how << ", " << n << " nodes, overrides " << (bool)fmt << (bool)scale << (bool)offset << (bool)wkt << (bool)eb << (bool)ext);
    Scratch dir;
    std::stringstream s;
    {
        copc::Writer a(s, cfg, fmt, scale, offset, wkt, eb, ext);
        std::unique_ptr<copc::FileWriter> b(new copc::FileWriter(dir.path, cfg, fmt, scale, offset, wkt, eb, ext));
        REQ(b->FilePath() == dir.path, "file path of the writer");
        std::vector<copc::VoxelKey> keys{{0, 0, 0, 0}, {1, 0, 0, 0}, {2, 1, 0, 0}};
        for (int i = 0; i < n && i < 3; i++)
        {
            copc::las::Points p(*a.CopcConfig()->LasHeader());
            int k = 1 + (int)r.below(5);
            for (int j = 0; j < k; j++)
            {
                auto q = p.CreatePoint();
                q->X(1 + j), q->Y(2), q->Z(3 + i), q->Intensity((uint16_t)r.u64());
                p.AddPoint(q);
            }
            copc::VoxelKey page = i && r.coin() ? copc::VoxelKey{1, 0, 0, 0} : copc::VoxelKey{0, 0, 0, 0};
            auto x = a.AddNode(keys[i], p, page), y = b->AddNode(keys[i], p, page);
            REQ(x.offset == y.offset && x.byte_size == y.byte_size && x.point_count == y.point_count, "node " << i << " lies elsewhere in the file");
        }
        a.Close();
        finish(b, how);
        if (how)
            REQ(dir.bytes() == s.str(), "the file is not complete after Close");
    }
    REQ(dir.bytes() == s.str(), "the file is not what is written to a stream");
    copc::Reader a(&s);
    copc::FileReader b(dir.path);
    REQ(b.FilePath() == dir.path, "file path of the reader");
    auto x = a.GetAllNodes(), y = b.GetAllNodes();
    REQ(x.size() == y.size(), "nodes read from the file");
    for (auto &nd : x)
        REQ(a.GetPointData(nd) == b.GetPointData(nd.key) && a.GetPointDataCompressed(nd.key) == b.GetPointDataCompressed(nd), "data read from the file");
    REQ(a.CopcConfig().Wkt() == b.CopcConfig().Wkt(), "WKT read from the file");
    if (how)
        b.Close();
    if (how > 1)
        b.Close();
    REQ(throws([&] { copc::FileReader c(dir.path + ".missing"); }), "a missing file was opened");
    REQ(throws([&] { copc::FileWriter c(std::string(dir.dir) + "/no/such/dir", cfg); }), "a file in a missing directory was created");
}
inline void lazWrappers(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    m.copc = false;
    if (m.items.empty())
        m.ebLen = 0;
    noteModel(m);
    auto cc = configOf(m);
    copc::las::LazConfigWriter cfg{copc::las::LazConfig(static_cast<const copc::CopcConfig &>(cc))};
    int how = (int)r.below(3), n = (int)r.below(4);
    NOTE("close mode " << how << ", " << n << " chunks");
    Scratch dir;
    std::stringstream s;
    {
        copc::laz::LazWriter a(s, cfg);
        std::unique_ptr<copc::laz::LazFileWriter> b(new copc::laz::LazFileWriter(dir.path, cfg));
        REQ(b->FilePath() == dir.path, "file path of the writer");
        for (int i = 0; i < n; i++)
        {
            MNode nd;
            nd.key = {0, 0, 0, 0};
            randPoints(m, nd, r, 1 + (int)r.below(5), true);
            auto p = pointsOf(nd.pts, m.fmt, m.ebLen);
            a.WritePoints(p), b->WritePoints(p);
        }
        a.Close();
        finish(b, how);
        if (how)
            REQ(dir.bytes() == s.str(), "the file is not complete after Close");
    }
    REQ(dir.bytes() == s.str(), "the file is not what is written to a stream");
    copc::laz::LazReader a(&s);
    copc::laz::LazFileReader b(dir.path);
    REQ(b.FilePath() == dir.path, "file path of the reader");
    REQ(a.GetPointData() == b.GetPointData(), "data read from the file");
    if (how)
        b.Close();
    if (how > 1)
        b.Close();
    REQ(throws([&] { copc::laz::LazFileReader c(dir.path + ".missing"); }), "a missing file was opened");
}
} // namespace drv

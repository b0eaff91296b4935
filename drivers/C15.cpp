// C15: VLR directory and reader initialisation
#include "files.hpp"
using namespace drv;
using namespace copc;
static void checkHeader(const las::LasHeader &h, const FileModel &m)
{
    REQ(h.PointFormatId() == m.fmt && h.PointRecordLength() == m.rec(), "format/record length");
    REQ(h.file_source_id == m.source && h.global_encoding == m.enc && h.creation_day == m.day && h.creation_year == m.year, "header ids");
    REQ(h.GUID() == m.guid && h.SystemIdentifier() == m.sys && h.GeneratingSoftware() == m.soft, "header texts");
    REQ(same(h.Scale(), m.scale) && same(h.Offset(), m.offset) && same(h.min, m.min) && same(h.max, m.max), "scale/offset/bounds");
    REQ(h.PointCount() == m.pointCount && h.PointOffset() == m.pointOffset && h.VlrCount() == m.vlrCount && h.EvlrCount() == m.evlrCount && h.EvlrOffset() == m.evlrOffset, "counts and offsets");
    for (int i = 0; i < 15; i++)
        REQ(h.points_by_return[i] == m.byReturn[i], "points by return");
}
static void checkVlrs(const std::map<uint64_t, las::VlrHeader> &got, const FileModel &m)
{
    REQ(got.size() == m.vlrs.size(), "number of VLRs " << got.size() << " vs " << m.vlrs.size());
    for (auto &v : m.vlrs)
    {
        auto it = got.find(v.pos);
        REQ(it != got.end(), "no VLR listed at offset " << v.pos);
        auto &h = it->second;
        REQ(h.evlr_flag == v.evlr && h.user_id == v.user && h.record_id == v.id && h.data_length == v.payload.size() && h.description == v.desc && h.reserved == v.reserved, "VLR header at " << v.pos);
    }
    for (auto &v : m.vlrs)
    {
        uint64_t first = 0;
        for (auto &w : m.vlrs)
            if (w.user == v.user && w.id == v.id && (first == 0 || w.pos < first))
                first = w.pos;
        REQ(BaseReader::FetchVlr(got, v.user, v.id) == first, "lookup of " << v.user << "/" << v.id);
    }
    REQ(BaseReader::FetchVlr(got, "nobody", 1) == 0 && BaseReader::FetchVlr(got, "laszip encoded", 1) == 0, "lookup of an absent VLR");
}
static void checkEb(const las::EbVlr &eb, const FileModel &m)
{
    size_t n = m.writeEbVlr ? m.items.size() : 0;
    REQ(eb.items.size() == n, "number of extra-byte descriptors " << eb.items.size() << " vs " << n);
    for (size_t i = 0; i < n; i++)
        REQ(sameEb(eb.items[i], m.items[i]), "descriptor " << i);
}
static void open(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    randHierarchy(m, r, false, 6);
    BuildOpts o;
    o.shuffle = !r.coin(3);
    o.noise = !r.coin(3);
    o.oneHierarchy = r.coin();
    if (!m.items.empty() && r.coin(6))
    {
        m.items.clear();
        m.extents.resize(m.slots());
    }
    buildFile(m, r, o);
    noteModel(m);
    for (auto &v : m.vlrs)
        NOTE((v.evlr ? "EVLR " : "VLR ") << v.user << "/" << v.id << "@" << v.pos);
    std::istringstream in(m.bytes);
    Reader rd(&in);
    checkVlrs(rd.vlrs_, m);
    auto c = rd.CopcConfig();
    checkHeader(c.LasHeader(), m);
    REQ(c.LasHeader().IsCopc(), "COPC flag");
    REQ(c.Wkt() == m.wkt, "WKT of " << m.wkt.size() << " characters");
    checkEb(c.ExtraBytesVlr(), m);
    auto i = c.CopcInfo();
    REQ(same(i.center_x, m.center[0]) && same(i.center_y, m.center[1]) && same(i.center_z, m.center[2]) && same(i.halfsize, m.halfsize) && same(i.spacing, m.spacing) && i.root_hier_offset == m.pages[0].offset && i.root_hier_size == (uint64_t)m.pages[0].size, "COPC info");
    auto e = c.CopcExtents();
    REQ(e.PointFormatId() == m.fmt && e.NumberOfExtents() == (size_t)m.slots(), "extents: slots " << e.NumberOfExtents() << " vs " << m.slots());
    REQ(e.HasExtendedStats() == (m.hasExtents && m.extended), "extended stats flag");
    auto ex = e.Extents();
    for (int k = 0; k < m.slots(); k++)
    {
        if (!m.hasExtents)
            REQ(*ex[k] == CopcExtent(), "default extent " << k);
        else
        {
            REQ(same(ex[k]->minimum, m.extents[k][0]) && same(ex[k]->maximum, m.extents[k][1]), "extent " << k);
            REQ(same(ex[k]->mean, m.extended ? m.extents[k][2] : 0) && same(ex[k]->var, m.extended ? m.extents[k][3] : 1), "extended stats " << k);
        }
    }
    auto &hp = rd.hierarchy_->seen_pages_;
    REQ(hp.size() == 1 && hp.count(VoxelKey::RootKey()), "initial hierarchy");
    auto root = hp[VoxelKey::RootKey()];
    REQ(root->offset == m.pages[0].offset && root->byte_size == m.pages[0].size && !root->loaded, "root page");
    // the same file through the plain LAZ reader
    std::istringstream in2(m.bytes);
    laz::LazReader lr(&in2);
    checkVlrs(lr.vlrs_, m);
    checkHeader(lr.LazConfig().LasHeader(), m);
    REQ(lr.LazConfig().Wkt() == m.wkt, "WKT (LAZ)");
    checkEb(lr.LazConfig().ExtraBytesVlr(), m);
}
static void refuse(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    randHierarchy(m, r, false, 3);
    BuildOpts o;
    o.shuffle = r.coin();
    int what = (int)r.below(6);
    if (what == 0)
        o.noInfo = true;
    if (what == 1)
        o.noHierarchy = true;
    if (what == 2)
        o.infoElsewhere = true;
    bool slots = false;
    if (what == 3)
    {
        m.hasExtents = true;
        if (r.coin())
            m.extents.push_back({0, 1, 0, 1});
        else
            m.extents.pop_back();
        slots = true;
    }
    if (what == 4)
        m.enc &= ~0x10;
    buildFile(m, r, o);
    if (what == 5)
    {
        int w = (int)r.below(3);
        if (w == 0)
            m.bytes[25] = (char)(3 - r.below(3));
        else if (w == 1)
            m.bytes[94] = (char)(m.bytes[94] + 1 + r.below(3));
        else
            m.bytes[104] = (char)(0x80 | (r.coin() ? r.below(6) : 9 + r.below(3)));
    }
    NOTE("refusal case " << what);
    noteModel(m);
    std::istringstream in(m.bytes);
    REQ(throws([&] { Reader rd(&in); }), "a malformed file was opened, case " << what << (slots ? " (wrong number of extents)" : ""));
    if (what <= 2 && m.nodes.size())
    {
        std::istringstream in2(m.bytes);
        REQ(!throws([&] { laz::LazReader rd(&in2); }), "a plain LAZ file was refused");
    }
    std::istringstream none("");
    none.setstate(std::ios::failbit);
    REQ(throws([&] { Reader rd(&none); }), "a failed stream was accepted");
}
std::vector<Case> drv::cases{{"open", open, 4}, {"refuse", refuse, 1}, {"files", copcWrappers, 1}, {"laz files", lazWrappers, 1}};

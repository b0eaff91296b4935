#include "common.hpp"
using namespace drv;
using namespace copc;
static VoxelKey anyKey(Rng &r) { return {anyInt<int32_t>(r), anyInt<int32_t>(r), anyInt<int32_t>(r), anyInt<int32_t>(r)}; }
static std::string enc(const Entry &e)
{
    Bytes b;
    b.le(e.key.d).le(e.key.x).le(e.key.y).le(e.key.z).le(e.offset).le(e.byte_size).le(e.point_count);
    return b.s;
}
static bool eq(const Entry &a, const Entry &b)
{
    return a.key.d == b.key.d && a.key.x == b.key.x && a.key.y == b.key.y && a.key.z == b.key.z && a.offset == b.offset && a.byte_size == b.byte_size && a.point_count == b.point_count;
}
static void codec(Rng &r)
{
    Entry e(r.coin() ? anyKey(r) : randKey(r), (uint64_t)anyInt<int64_t>(r), anyInt<int32_t>(r), r.coin(3) ? -1 : anyInt<int32_t>(r));
    NOTE("entry " << str(e.key) << " " << e.offset << " " << e.byte_size << " " << e.point_count);
    std::ostringstream o;
    o << "p";
    e.Pack(o);
    REQ(o.str() == "p" + enc(e) && o.str().size() == 33 && Entry::ENTRY_SIZE == 32, "packed entry");
    std::istringstream in(enc(e) + "rest");
    Entry u = Entry::Unpack(in);
    REQ(eq(u, e) && in.tellg() == std::streampos(32), "unpacked entry");
    bool valid = e.byte_size >= 0 && e.key.d >= 0 && e.key.x >= 0 && e.key.y >= 0 && e.key.z >= 0;
    REQ(e.IsValid() == valid, "IsValid must be " << valid);
    REQ(e.IsPage() == (valid && e.point_count == -1), "IsPage");
    auto pk = randKey(r);
    Node n(e, pk);
    REQ(eq(n, e) && n.page_key == pk && n.IsValid() == valid && n.IsPage() == e.IsPage(), "node from entry");
    Node n2(e);
    REQ(eq(n2, e) && !n2.page_key.IsValid(), "node without page");
    Page p(e);
    REQ(eq(p, e) && !p.loaded && p.IsValid() == valid && p.IsPage() == e.IsPage(), "page from entry");
    Internal::PageInternal pi(e);
    REQ(eq(pi, e) && !pi.loaded && pi.nodes.empty() && pi.sub_pages.empty(), "internal page from entry");
    pi.loaded = p.loaded = true;
    bool kv = e.key.IsValid();
    REQ(p.IsValid() == kv && pi.IsValid() == kv && p.IsPage() == (kv && e.point_count == -1), "loaded page");
    Page p3(e.key, (int64_t)e.offset, e.byte_size);
    REQ(p3.key == e.key && p3.offset == e.offset && p3.byte_size == e.byte_size && p3.point_count == -1 && !p3.loaded, "page from parts");
    REQ(p3.IsPage() == valid, "page from parts is a page");
    Internal::PageInternal p4(e.key);
    REQ(p4.key == e.key && p4.byte_size == -1 && p4.point_count == -1 && !p4.IsValid(), "internal page from key");
    // comparison
    Entry f = e;
    int w = r.below(9);
    switch (w)
    {
    case 0: f.key.d ^= 1; break;
    case 1: f.key.x ^= 1; break;
    case 2: f.key.y ^= 1; break;
    case 3: f.key.z ^= 1 << r.below(31); break;
    case 4: f.offset ^= 1ull << r.below(64); break;
    case 5: f.byte_size ^= 1 << r.below(31); break;
    case 6: f.point_count ^= 1 << r.below(31); break;
    }
    bool same = w > 6;
    Node a(e), b(f);
    REQ((a == b) == same, "node equality, field " << w);
    Page c(e), d(f);
    REQ((c == d) == same, "page equality, field " << w);
    d.loaded = true;
    REQ(!(c == d), "pages differing in loaded");
    c.loaded = true;
    REQ((c == d) == same, "page equality when loaded");
    Entry def;
    REQ(!def.IsValid() && !def.IsPage() && !Node().IsValid(), "default entry is invalid");
}
std::vector<Case> drv::cases{{"codec", codec, 1}};

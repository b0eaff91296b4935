// C16: hierarchy lookup
#include "files.hpp"
using namespace drv;
using namespace copc;
static void checkNode(const Node &n, const FileModel &m, const VoxelKey &k)
{
    auto *w = m.find(k);
    if (!w)
    {
        REQ(!n.IsValid(), "a node was found for " << str(k) << " which the file does not contain");
        return;
    }
    REQ(n.IsValid(), "node " << str(k) << " not found");
    REQ(keyEq(n.key, k) && n.offset == w->offset && n.byte_size == (int32_t)w->enc.size() && n.point_count == (int32_t)w->pts.size(), "node " << str(k) << " fields");
    REQ(keyEq(n.page_key, m.pages[w->page].key), "node " << str(k) << " page key " << str(n.page_key));
}
static void checkList(const std::vector<Node> &got, const FileModel &m, std::vector<int> want, const char *what)
{
    std::set<VoxelKey> seen;
    for (auto &n : got)
    {
        REQ(seen.insert(n.key).second, what << ": node " << str(n.key) << " listed twice");
        checkNode(n, m, n.key);
    }
    REQ(got.size() == want.size(), what << ": " << got.size() << " nodes instead of " << want.size());
    for (int i : want)
        REQ(seen.count(m.nodes[i].key), what << ": node " << str(m.nodes[i].key) << " missing");
}
static void under(const FileModel &m, int page, std::vector<int> &out)
{
    for (int n : m.pages[page].nodes)
        out.push_back(n);
    for (int s : m.pages[page].subs)
        under(m, s, out);
}
static void lookups(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    randHierarchy(m, r, false, 30, false, true);
    BuildOpts o;
    o.noise = r.coin();
    o.oneHierarchy = r.coin();
    buildFile(m, r, o);
    noteModel(m);
    std::istringstream in(m.bytes);
    Reader rd(&in);
    int ops = 1 + (int)r.below(10);
    for (int i = 0; i < ops; i++)
    {
        VoxelKey k;
        int w = (int)r.below(5);
        if (w < 3 && !m.nodes.empty())
            k = r.pick(m.nodes).key;
        else if (w == 3)
            k = r.pick(m.pages).key;
        else if (r.coin(3))
            k = VoxelKey::InvalidKey();
        else
            k = randKey(r, 8);
        if (r.coin(4) && k.IsValid())
            k = childOf(k, (int)r.below(8));
        if (r.coin(10))
            k.x = k.x ^ 1;
        switch (r.below(6))
        {
        case 0: {
            NOTE("children of page " << str(k));
            auto l = rd.GetAllChildrenOfPage(k);
            std::vector<int> want;
            int p = m.findPage(k);
            if (k.IsValid())
            {
                if (p >= 0)
                    under(m, p, want);
                else
                    for (size_t j = 0; j < m.nodes.size(); j++)
                        if (keyEq(m.nodes[j].key, k))
                            want.push_back((int)j);
            }
            checkList(l, m, want, "children of page");
            break;
        }
        case 1: {
            NOTE("all nodes");
            std::vector<int> want;
            under(m, 0, want);
            REQ(want.size() == m.nodes.size(), "model");
            checkList(rd.GetAllNodes(), m, want, "all nodes");
            break;
        }
        case 2: {
            NOTE("page list");
            auto l = rd.GetPageList();
            std::set<VoxelKey> s(l.begin(), l.end());
            REQ(s.size() == l.size() && l.size() == m.pages.size(), "page list has " << l.size() << " entries instead of " << m.pages.size());
            for (auto &p : m.pages)
                REQ(s.count(p.key), "page " << str(p.key) << " missing");
            break;
        }
        default:
            NOTE("find " << str(k));
            checkNode(rd.FindNode(k), m, k);
        }
    }
}
static void malformed(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    do
        randHierarchy(m, r, false, 12);
    while (m.nodes.empty());
    buildFile(m, r, {});
    auto &p = r.pick(m.pages);
    if (p.size == 0)
        return;
    int e = (int)r.below(p.size / 32);
    size_t at = p.offset + 32 * e;
    // make the entry invalid
    Bytes b;
    int w = (int)r.below(5);
    b.le<int32_t>((int32_t)-r.range(1, 1000));
    size_t f = w == 0 ? 0 : w == 1 ? 4 : w == 2 ? 8 : w == 3 ? 12 : 24;
    m.bytes.replace(at + f, 4, b.s);
    noteModel(m);
    NOTE("entry " << e << " of page " << str(p.key) << " field at " << f << " negative");
    std::istringstream in(m.bytes);
    Reader rd(&in);
    REQ(throws([&] { rd.GetAllNodes(); }), "an invalid entry was accepted");
    Internal::PageInternal bad(r.coin() ? VoxelKey::InvalidKey() : m.pages[0].key, 400, -1);
    REQ(throws([&] { rd.ReadPage(std::make_shared<Internal::PageInternal>(bad)); }), "an invalid page was read");
}
static void truncated(Rng &r)
{
    FileModel m;
    randHeader(m, r);
    m.wkt = "";
    do
        randHierarchy(m, r, false, 12);
    while (m.nodes.empty());
    BuildOpts o;
    o.shuffle = o.noise = false;
    buildFile(m, r, o);
    std::istringstream in(m.bytes);
    Reader rd(&in);
    size_t cut = 1 + r.below(40);
    // the last EVLR is a hierarchy page; cut inside its payload
    MPage *last = nullptr;
    for (auto &p : m.pages)
        if (!last || p.offset > last->offset)
            last = &p;
    if ((int)cut > last->size)
        return;
    NOTE("page " << str(last->key) << " cut by " << cut);
    noteModel(m);
    std::string b = m.bytes.substr(0, m.bytes.size() - cut);
    in.clear();
    in.str(b);
    REQ(throws([&] { rd.GetAllNodes(); }), "entries outside the file were accepted");
}
std::vector<Case> drv::cases{{"lookups", lookups, 6}, {"malformed", malformed, 1}, {"truncated", truncated, 1}, {"files", copcWrappers, 1}};

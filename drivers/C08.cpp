#include "common.hpp"
using namespace drv;
using namespace copc;
static bool is(const VoxelKey &k, int64_t d, int64_t x, int64_t y, int64_t z) { return k.d == d && k.x == x && k.y == y && k.z == z; }
static VoxelKey ofAnyKind(Rng &r)
{
    if (r.coin(6))
    {
        auto one = [&] { return (int32_t)r.range(-3, 3); };
        return {one(), one(), one(), one()};
    }
    return randKey(r, 31);
}
static void children(Rng &r)
{
    auto k = randKey(r, 29);
    NOTE("key " << str(k));
    auto c = k.GetChildren();
    REQ(c.size() == 8, "eight children");
    for (int i = 0; i < 8; i++)
    {
        REQ(is(c[i], k.d + 1, 2 * (int64_t)k.x + (i & 1), 2 * (int64_t)k.y + (i >> 1 & 1), 2 * (int64_t)k.z + (i >> 2 & 1)), "child " << i);
        REQ(k.Bisect(i) == c[i], "Bisect " << i);
        REQ(c[i].GetParent() == k, "parent of child " << i);
        REQ(c[i].ChildOf(k) && !k.ChildOf(c[i]), "child relation");
    }
}
static void parents(Rng &r)
{
    auto k = ofAnyKind(r);
    NOTE("key " << str(k));
    bool valid = k.d >= 0 && k.x >= 0 && k.y >= 0 && k.z >= 0;
    REQ(k.IsValid() == valid, "IsValid");
    auto p = k.GetParent();
    std::vector<VoxelKey> anc;
    if (valid)
        for (int64_t i = 0; i <= k.d; i++)
        {
            int sh = (int)std::min<int64_t>(i, 62);
            anc.push_back({(int32_t)(k.d - i), (int32_t)((int64_t)k.x >> sh), (int32_t)((int64_t)k.y >> sh), (int32_t)((int64_t)k.z >> sh)});
        }
    if (!valid)
        REQ(!p.IsValid(), "parent of an invalid key");
    else if (k.d == 0)
        REQ(!p.IsValid(), "parent of a root-level key");
    else
        REQ(p == anc[1], "parent");
    auto withSelf = k.GetParents(true), without = k.GetParents(false);
    REQ(withSelf == anc, "GetParents(true)");
    REQ(without == (valid ? std::vector<VoxelKey>(anc.begin() + 1, anc.end()) : anc), "GetParents(false)");
    REQ(without == k.GetParents(), "GetParents()");
    for (int j = 0; j < 4; j++)
    {
        int32_t depth = (int32_t)r.range(-2, (int64_t)std::max(k.d, 0) + 2);
        if (r.coin(8))
            depth = anyInt<int32_t>(r);
        VoxelKey a;
        bool t = throws([&] { a = k.GetParentAtDepth(depth); });
        REQ(t == (valid && (depth < 0 || depth > k.d)), "GetParentAtDepth(" << depth << ") refusal");
        if (!t)
            REQ(valid ? a == anc[k.d - depth] : !a.IsValid(), "GetParentAtDepth(" << depth << ") = " << str(a));
    }
}
static void childOf(Rng &r)
{
    auto k = ofAnyKind(r);
    VoxelKey p = ofAnyKind(r);
    bool valid = k.d >= 0 && k.x >= 0 && k.y >= 0 && k.z >= 0;
    if (r.coin() && valid)
    {
        int i = (int)r.range(0, k.d), sh = std::min(i, 31);
        p = {k.d - i, (int32_t)((int64_t)k.x >> sh), (int32_t)((int64_t)k.y >> sh), (int32_t)((int64_t)k.z >> sh)};
        if (r.coin(3))
            {
            int32_t &v = r.coin() ? p.x : r.coin() ? p.y : r.coin() ? p.z : p.d;
            v = (int32_t)((uint32_t)v + (r.coin() ? 1u : ~0u));
        }
    }
    bool want = false;
    if (valid && p.d >= 0 && p.d <= k.d)
    {
        int sh = std::min(k.d - p.d, 62);
        want = p.x == ((int64_t)k.x >> sh) && p.y == ((int64_t)k.y >> sh) && p.z == ((int64_t)k.z >> sh);
    }
    NOTE("key " << str(k) << " of " << str(p));
    REQ(k.ChildOf(p) == want, "ChildOf must be " << want);
    bool eq = k.d == p.d && k.x == p.x && k.y == p.y && k.z == p.z;
    REQ((k == p) == eq && (k != p) == !eq, "key equality");
    VoxelKey c(k.d, k.x, k.y, k.z);
    REQ(c == k && std::hash<VoxelKey>()(c) == std::hash<VoxelKey>()(k), "equal keys must hash equally");
    VoxelKey w(std::vector<int32_t>{k.d, k.x, k.y, k.z});
    REQ(w == k, "key from a list");
    std::vector<int32_t> v(r.below(7), 1);
    REQ(throws([&] { VoxelKey q(v); }) == (v.size() != 4), "key list size check");
    REQ(is(VoxelKey::RootKey(), 0, 0, 0, 0) && !VoxelKey::InvalidKey().IsValid() && !VoxelKey().IsValid(), "root and invalid key");
}
std::vector<Case> drv::cases{{"children", children, 1}, {"parents", parents, 2}, {"childof", childOf, 2}};

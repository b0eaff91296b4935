P='cpp/src/'; I='cpp/include/copc-lib/'
FILEHELP = r'''
static las::Points pts(const las::LasHeader &h, int n, double base) {
    las::Points p(h);
    for (int i = 0; i < n; i++) { auto q = p.CreatePoint(); q->X(base + i * 0.01); q->Y(base); q->Z(base); p.AddPoint(q); }
    return p;
}
'''
SEEDS = [
 dict(id='S30-empty-node-listed', property='C16', needs='a file with a node entry of zero points', breaks='listing the hierarchy leaves out nodes without points that lookup finds',
  edits={P+'io/copc_base_io.cpp':[('        loaded_nodes.push_back(*node.second);', '        if (node.second->point_count > 0)\n            loaded_nodes.push_back(*node.second);')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 0); w.AddNode(VoxelKey(0, 0, 0, 0), p); w.AddNode(VoxelKey(1, 0, 0, 0), p); w.Close(); }
    std::string b = s.str(); uint64_t at; { std::istringstream in(b); Reader r(&in); at = r.CopcConfig().CopcInfo().root_hier_offset; }
    for (int i = 0; i < 2; i++) { int32_t d; std::memcpy(&d, &b[at + 32 * i], 4); if (d == 1) { int32_t zero = 0; std::memcpy(&b[at + 32 * i + 28], &zero, 4); } }
    std::istringstream in(b); Reader r(&in); CHECK(r.FindNode(VoxelKey(1, 0, 0, 0)).key.d == 1); CHECK(r.GetAllNodes().size() == 2); return 0; }
'''),
 dict(id='S31-empty-root-page', property='C22', needs='closing a file to which no node was added', breaks='the empty root page is not written, so the file has no hierarchy',
  edits={P+'io/copc_writer_internal.cpp':[('    if (current == nullptr)\n        return;', '    if (current == nullptr || (current->nodes.empty() && current->sub_pages.empty()))\n        return;')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); uint64_t before = 0; { Writer w(s, c); w.Close(); CHECK(w.config_->CopcInfo()->root_hier_offset != 0); CHECK(s.str().size() == w.config_->CopcInfo()->root_hier_offset); } return 0; }
'''),
 dict(id='S32-close-empty-twice', property='C21', needs='closing a plain LAZ writer twice when nothing was written to it', breaks='closing twice writes a second chunk table',
  edits={P+'io/laz_base_writer.cpp':[('    WriteWKT();\n\n    WriteHeader();\n\n    open_ = false;', '    WriteWKT();\n\n    WriteHeader();\n\n    open_ = chunks_.empty();')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; las::LazConfigWriter c(6); laz::LazWriter w(s, c); w.Close(); auto n = s.str().size(); w.Close(); CHECK(s.str().size() == n); return 0; }
'''),
 dict(id='S33-flat-box-floor', property='C09', needs='a two-dimensional box built from a list, and negative z', breaks='a box without z limits excludes negative z',
  edits={P+'geometry/box.cpp':[('        z_min = -std::numeric_limits<double>::max();\n        x_max = vec[2];', '        z_min = std::numeric_limits<double>::min();\n        x_max = vec[2];')]},
  demo=r'''int main() { std::vector<double> v{0, 0, 1, 1}; Box b(v); CHECK(b.Contains(Vector3(0.5, 0.5, 3))); CHECK(b.Contains(Vector3(0.5, 0.5, -3))); CHECK(b.Contains(Vector3(0.5, 0.5, 0))); return 0; }
'''),
 dict(id='S34-partial-node-check', property='C19', needs='a node that sticks out of the header bounds with a point inside those bounds but outside the node', breaks='points outside their node are accepted when the node crosses the header bounds',
  edits={P+'io/copc_reader.cpp':[('                if (!point->Within(box))', '                if (!point->Within(box) && (box.Within(header.Bounds()) || !point->Within(header.Bounds())))')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); c.LasHeader()->max = Vector3(8, 8, 2); { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 1);
      w.AddNode(VoxelKey(0, 0, 0, 0), p); w.AddNode(VoxelKey(1, 1, 0, 0), p); w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); std::stringstream sink; CHECK(!r.ValidateSpatialBounds(false)); return 0; }
'''),
 dict(id='S35-drop-by-target', property='C20', needs='moving the last node out of the root page, or the last node of another page into the root page', breaks='the root page disappears when its last node moves away; emptied pages stay when the node moves to the root page',
  edits={P+'io/copc_writer_public.cpp':[('if (node->page_key != VoxelKey::RootKey() && hierarchy_', 'if (new_page_key != VoxelKey::RootKey() && hierarchy_')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 0); VoxelKey pg(1, 0, 0, 0);
      w.AddNode(VoxelKey(2, 0, 0, 0), p); w.ChangeNodePage(VoxelKey(2, 0, 0, 0), pg); CHECK(w.PageExists(VoxelKey::RootKey())); CHECK(w.PageExists(pg)); w.ChangeNodePage(VoxelKey(2, 0, 0, 0), VoxelKey::RootKey()); CHECK(!w.PageExists(pg)); w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); CHECK(r.GetAllNodes().size() == 1); return 0; }
'''),
 dict(id='S36-far-chunk', property='C24', needs='a node stored beyond 2 GiB', breaks='the position of far chunks is truncated to 32 bits',
  edits={P+'io/copc_reader.cpp':[('''    in_stream_->seekg(node.offset);

    std::vector<char> out;
    out.resize(node.byte_size);''', '''    in_stream_->seekg(static_cast<int32_t>(node.offset));

    std::vector<char> out;
    out.resize(node.byte_size);''')]},
  demo=FILEHELP+r'''
struct Far : std::streambuf { // the bytes of s at their own place and again at 3e9
    std::string s; int64_t at = 0; char c;
    int ch() { int64_t p = at >= 3000000000LL ? at - 3000000000LL : at; return p < (int64_t)s.size() ? (unsigned char)s[p] : EOF; }
    int_type underflow() override { int k = ch(); if (k == EOF) return EOF; c = (char)k; setg(&c, &c, &c + 1); return k; }
    int_type uflow() override { int k = ch(); setg(nullptr, nullptr, nullptr); if (k != EOF) at++; return k; }
    std::streamsize xsgetn(char *o, std::streamsize n) override { setg(nullptr, nullptr, nullptr); std::streamsize i = 0; while (i < n && ch() != EOF) { o[i++] = (char)ch(); at++; } return i; }
    pos_type seekoff(off_type o, std::ios::seekdir d, std::ios::openmode) override { setg(nullptr, nullptr, nullptr); int64_t t = d == std::ios::beg ? o : d == std::ios::cur ? at + o : 3000000000LL + (int64_t)s.size() + o; if (t < 0) return -1; at = t; return at; }
    pos_type seekpos(pos_type p, std::ios::openmode m) override { return seekoff(p, std::ios::beg, m); }
};
int main() { std::stringstream s; CopcConfigWriter c(6); Node n; { Writer w(s, c); n = w.AddNode(VoxelKey(0, 0, 0, 0), pts(*c.LasHeader(), 3, 0)); w.Close(); }
    std::istringstream in(s.str()); Reader near(&in); auto want = near.GetPointDataCompressed(n);
    Far f; f.s = s.str(); std::istream fin(&f); Reader r(&fin); CHECK(r.GetPointDataCompressed(n) == want); n.offset += 3000000000ULL; CHECK(r.GetPointDataCompressed(n) == want); return 0; }
'''),
 dict(id='S37-empty-override', property='C14', needs='overriding a non-empty WKT by an empty one', breaks='an empty WKT override is ignored',
  edits={P+'io/copc_writer_public.cpp':[('        if (wkt)\n', '        if (wkt && !wkt->empty())\n')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6, Vector3(1, 1, 1), Vector3(0, 0, 0), "abc"); Writer w(s, c, {}, {}, {}, std::string()); CHECK(w.CopcConfig()->Wkt().empty()); return 0; }
'''),
 dict(id='S38-extra-count', property='C12', needs='rebuilding extents with extra bytes for a format with a different number of dimensions', breaks='the extra-byte extents are dropped although both sides have them',
  edits={P+'copc/extents.cpp':[('other.NumberOfExtents() - PointBaseNumberExtents(other.PointFormatId());', 'other.NumberOfExtents() - PointBaseNumberExtents(point_format_id);')]},
  demo=r"""int main() { CopcExtents a(8, 2, false); for (int i = 0; i < 20; i++) a.Extents()[i]->maximum = i; CopcExtents b(a, 7, 2, false); CHECK(b.Extents()[17]->maximum == 18); CHECK(b.Extents()[18]->maximum == 19); CopcExtents d(a, 8, 2, false); CHECK(d.Extents()[19]->maximum == 19); return 0; }
"""),
 dict(id='S40-evlr-after-empty', property='C15', needs='an EVLR without payload before another one, as in a file closed without nodes but with WKT', breaks='EVLRs after an empty one are not found',
  edits={P+'io/base_reader.cpp':[('        auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));\n        out.insert({cur_pos, h});\n', '        auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));\n        out.insert({cur_pos, h});\n        if (h.data_length == 0)\n            break;\n')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6, Vector3(1, 1, 1), Vector3(0, 0, 0), "abc"); { Writer w(s, c); w.Close(); }
    std::istringstream in(s.str()); struct B : BaseReader { B(std::istream *i) { in_stream_ = i; InitReader(); } } b(&in); CHECK(b.las_config_.Wkt() == "abc"); return 0; }
'''),
 dict(id='S41-float-spacing', property='C17', needs='a spacing that has no exact single-precision value and a request equal to a level spacing', breaks='the level spacing is rounded to single precision',
  edits={P+'io/copc_reader.cpp':[('    auto current_resolution = config_.CopcInfo().spacing;', '    float current_resolution = config_.CopcInfo().spacing;')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); c.CopcInfo()->spacing = 0.1; { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 0);
      w.AddNode(VoxelKey(0, 0, 0, 0), p); w.AddNode(VoxelKey(1, 0, 0, 0), p); w.AddNode(VoxelKey(2, 0, 0, 0), p); w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); CHECK(r.GetDepthAtResolution(0.05) == 1); CHECK(r.GetDepthAtResolution(0.1) == 0); CHECK(r.GetDepthAtResolution(0.0999999999) == 1); return 0; }
'''),
 dict(id='S42-undocumented-size', property='C13', needs='an undocumented extra-byte field of 128 bytes or more', breaks='the size of undocumented extra bytes is taken as signed',
  edits={P+'las/vlr.cpp':[('            out += item.options;', '            out += static_cast<int8_t>(item.options);')]},
  demo=r'''int main() { las::EbVlr v(1); v.items[0].data_type = 0; v.items[0].options = 200; CHECK(las::NumBytesFromExtraBytes(v.items) == 200); v.items[0].options = 100; CHECK(las::NumBytesFromExtraBytes(v.items) == 100); return 0; }
'''),
 dict(id='S43-convert-partway', property='C05', needs='converting a collection that holds extra bytes', breaks='the record length of a converted collection is computed from the new format',
  edits={P+'las/points.cpp':[('    unsigned int eb_byte_size = point_record_length_ - PointBaseByteSize(point_format_id_);\n    point_format_id_ = point_format_id;', '    unsigned int eb_byte_size = points_.empty() ? EbByteSize() : points_[0]->EbByteSize();\n    point_format_id_ = point_format_id;\n    if (points_.empty())\n        return;')]},
  demo=r'''int main() { las::Points p((int8_t)6, (uint16_t)4); p.ToPointFormat(8); CHECK(p.PointRecordLength() == 42); p.AddPoint(p.CreatePoint()); CHECK(p.Get(0)->PointRecordLength() == 42); return 0; }
'''),

 dict(id='S44-sticky-failure', property='C24', needs='reading the chunk at the end of the stream and then another one', breaks='after the codec read past the end of the stream no other node can be read',
  edits={I+'laz/decompressor.hpp':[('        in_stream.clear();\n        return out;', '        in_stream.clear(in_stream.rdstate() & ~std::ios::eofbit);\n        return out;')]},
  demo=FILEHELP+r"""int main() { std::stringstream s; CopcConfigWriter c(6); Node a, b; { Writer w(s, c); a = w.AddNode(VoxelKey(0, 0, 0, 0), pts(*c.LasHeader(), 5, 0)); b = w.AddNode(VoxelKey(1, 0, 0, 0), pts(*c.LasHeader(), 3, 1)); w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); auto all = r.GetPointDataCompressed(b);
    std::istringstream cut(s.str().substr(0, b.offset + b.byte_size)); r.in_stream_ = &cut; auto x = r.GetPointData(b); auto y = r.GetPointData(a); r.in_stream_ = &in; CHECK(x == r.GetPointData(b)); CHECK(y == r.GetPointData(a)); return 0; }
"""),
 dict(id='S46-negative-count-page', property='C10', needs='an entry whose point count is negative but not -1', breaks='entries with any negative point count are taken for pages',
  edits={I+'hierarchy/entry.hpp':[('IsValid() && point_count == -1;', 'IsValid() && point_count < 0;')]},
  demo=r"""int main() { Entry e(VoxelKey(0, 0, 0, 0), 5, 6, -2); CHECK(!e.IsPage()); e.point_count = -1; CHECK(e.IsPage()); e.point_count = 0; CHECK(!e.IsPage()); return 0; }
"""),
 dict(id='S48-angle-low-byte', property='C04', needs='two points whose scan angles differ by a multiple of 256', breaks='points with different scan angles compare equal',
  edits={P+'las/point.cpp':[('if (scan_angle_ != other.ScanAngle() ||', 'if (static_cast<int8_t>(scan_angle_ - other.ScanAngle()) != 0 ||')]},
  demo=r"""int main() { las::Point a(6), b(6); CHECK(a == b); a.ScanAngle(256); CHECK(!(a == b)); b.ScanAngle(256); CHECK(a == b); b.ScanAngle(255); CHECK(!(a == b)); return 0; }
"""),
 dict(id='S49-big-count', property='C11', needs='a header for more than 2^32 - 1 points', breaks='the 64-bit point count of large files is written as zero',
  edits={P+'las/header.cpp':[('    h.point_count_14 = point_count;', '    h.point_count_14 = h.point_count;')]},
  demo=r"""int main() { las::LasHeader h; las::LasHeader b; auto z = las::LazConfigWriter(6).LasHeader()->ToLazPerf(600, 5000000000ULL, 0, 0, false, false); CHECK(z.point_count_14 == 5000000000ULL); z = las::LazConfigWriter(6).LasHeader()->ToLazPerf(600, 7, 0, 0, false, false); CHECK(z.point_count_14 == 7); return 0; }
"""),
 dict(id='S51-root-always', property='C18', needs='a query box that misses the whole octree', breaks='the root node is returned for boxes it does not touch',
  edits={P+'io/copc_reader.cpp':[('        if (node.key.Intersects(config_.LasHeader(), box) && node.key.d <= max_depth)', '        if ((node.key.d == 0 || node.key.Intersects(config_.LasHeader(), box)) && node.key.d <= max_depth)')]},
  demo=FILEHELP+r"""int main() { std::stringstream s; CopcConfigWriter c(6); c.LasHeader()->max = Vector3(8, 8, 8); { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 1); w.AddNode(VoxelKey(0, 0, 0, 0), p); w.AddNode(VoxelKey(1, 0, 0, 0), p); w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); CHECK(r.GetNodesIntersectBox(Box(0, 0, 0, 1, 1, 1)).size() == 2); CHECK(r.GetNodesIntersectBox(Box(20, 20, 20, 30, 30, 30)).empty()); return 0; }
"""),
 dict(id='S52-longer-array', property='C06', needs='a bulk assignment of green with more values than points', breaks='arrays longer than the collection are accepted',
  edits={I+'las/points.hpp':[("        if (in.size() != Size())\n            throw std::runtime_error(\"Green", "        if (in.size() < Size())\n            throw std::runtime_error(\"Green")]},
  demo=r"""int main() { las::Points p((int8_t)7); p.AddPoint(p.CreatePoint()); CHECK(throws([&] { p.Green(std::vector<uint16_t>{1, 2}); })); CHECK(throws([&] { p.Green(std::vector<uint16_t>{}); })); p.Green({3}); CHECK(p.Green()[0] == 3); return 0; }
"""),
]

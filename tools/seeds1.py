P='cpp/src/'; I='cpp/include/copc-lib/'
FILEHELP = r'''
static las::Points pts(const las::LasHeader &h, int n, double base) {
    las::Points p(h);
    for (int i = 0; i < n; i++) { auto q = p.CreatePoint(); q->X(base + i * 0.01); q->Y(base); q->Z(base); p.AddPoint(q); }
    return p;
}
'''
SEEDS = [
 dict(id='S01-eb-count', property='C01', needs='a point with more than 255 extra bytes', breaks='extra bytes past the first 255 are not read back',
  edits={P+'las/point.cpp':[('    for (uint32_t i = 0; i < eb_byte_size; i++)\n    {\n        p->extra', '    const uint8_t count = eb_byte_size > 255 ? 255 : eb_byte_size;\n    for (uint32_t i = 0; i < count; i++)\n    {\n        p->extra')]},
  demo=r'''int main() {
    las::Point p(7, 300); std::vector<uint8_t> eb(300); for (int i = 0; i < 300; i++) eb[i] = i * 7 + 1; p.ExtraBytes(eb);
    std::stringstream s; p.Pack(s, Vector3(1, 1, 1), Vector3(0, 0, 0));
    auto q = las::Point::Unpack(s, 7, Vector3(1, 1, 1), Vector3(0, 0, 0), 300);
    CHECK(q->ExtraBytes() == eb); CHECK((long)s.tellg() == 336); return 0; }
'''),
 dict(id='S02-floor-rounding', property='C02', needs='a negative value exactly half way between two integers', breaks='halves of negative values round towards zero',
  edits={I+'las/utils.hpp':[('std::round((value - offset) / scale)', 'std::floor((value - offset) / scale + 0.5)')]},
  demo=r'''int main() { CHECK(las::RemoveScale<int32_t>(-2.5, 1, 0) == -3); CHECK(las::RemoveScale<int32_t>(2.5, 1, 0) == 3); CHECK(las::RemoveScale<int32_t>(0.49999999999999994, 1, 0) == 0); return 0; }
'''),
 dict(id='S03-channel-limit', property='C03', needs='scanner channel 4 exactly', breaks='scanner channel 4 is accepted and overwrites the scan direction flag',
  edits={I+'las/point.hpp':[('scanner_channel > 3', 'scanner_channel > 4')]},
  demo=r'''int main() { las::Point p(6); p.FlagsBitField(0); CHECK(throws([&] { p.ScannerChannel(4); })); CHECK(p.FlagsBitField() == 0); p.ScannerChannel(3); CHECK(p.ScannerChannel() == 3); return 0; }
'''),
 dict(id='S04-convert-length', property='C04', needs='converting a point between formats with different base sizes', breaks='the record length after conversion no longer is base size plus extra bytes',
  edits={P+'las/point.cpp':[('    point_record_length_ = PointBaseByteSize(point_format_id) + extra_bytes_.size();\n    point_format_id_ = point_format_id;', '    point_format_id_ = point_format_id;\n    point_record_length_ = PointBaseByteSize(point_format_id) + EbByteSize();')]},
  demo=r'''int main() { las::Point p(6, 4); p.ToPointFormat(8); CHECK(p.PointRecordLength() == 42); CHECK(p.EbByteSize() == 4); CHECK(p.ExtraBytes().size() == 4); return 0; }
'''),
 dict(id='S05-partial-add', property='C05', needs='adding a list whose mismatching point is not the first', breaks='a refused list leaves its leading points in the collection',
  edits={P+'las/points.cpp':[('            throw std::runtime_error("New points must be of same format and byte_size.");\n    }\n\n    points_.insert(points_.end(), points.begin(), points.end());', '            throw std::runtime_error("New points must be of same format and byte_size.");\n        points_.push_back(point);\n    }')]},
  demo=r'''int main() { las::Points c(6, 0); auto a = std::make_shared<las::Point>(6, 0), b = std::make_shared<las::Point>(7, 0);
    CHECK(throws([&] { c.AddPoints(std::vector<std::shared_ptr<las::Point>>{a, b}); })); CHECK(c.Size() == 0);
    c.AddPoints(std::vector<std::shared_ptr<las::Point>>{a, a}); CHECK(c.Size() == 2 && c.Get(1) == a); return 0; }
'''),
 dict(id='S06-green-slot', property='C06', needs='bulk setting of green on a collection whose last point differs', breaks='the last point does not get its green value',
  edits={I+'las/points.hpp':[('            throw std::runtime_error("Green setter array must be same size as Points array!");\n        for (unsigned i = 0; i < points_.size(); ++i)', '            throw std::runtime_error("Green setter array must be same size as Points array!");\n        for (unsigned i = 0; i + (i > 6) < points_.size(); ++i)')]},
  demo=r'''int main() { for (int n = 0; n < 20; n++) { las::Points c(7, 0); std::vector<uint16_t> g; for (int i = 0; i < n; i++) { c.AddPoint(c.CreatePoint()); g.push_back(100 + i); } c.Green(g); CHECK(c.Green() == g); } return 0; }
'''),
 dict(id='S07-trailing-bytes', property='C07', needs='a buffer holding at least one record plus a partial one', breaks='trailing bytes of an ill-sized buffer are silently dropped',
  edits={P+'las/points.cpp':[('point_data.size() % point_record_length != 0', 'point_data.size() % point_record_length != 0 && point_data.size() < point_record_length')]},
  demo=r'''int main() { std::vector<char> d(65); CHECK(throws([&] { las::Points::Unpack(d, 6, 0, Vector3(1, 1, 1), Vector3()); })); d.resize(60); CHECK(las::Points::Unpack(d, 6, 0, Vector3(1, 1, 1), Vector3()).Size() == 2); return 0; }
'''),
 dict(id='S08-childof-shortcut', property='C08', needs='an invalid key on one side of ChildOf', breaks='an invalid key is reported as a child of the invalid key, and a valid key with an invalid candidate parent throws',
  edits={P+'hierarchy/key.cpp':[('    for (auto parent : GetParents(true))\n    {\n        if (parent == parent_key)\n            return true;\n    }\n    return false;', '    return parent_key.d <= d && GetParentAtDepth(parent_key.d) == parent_key;')]},
  demo=r'''int main() { VoxelKey k(3, 5, 2, 1), bad; CHECK(!bad.ChildOf(bad)); bool r = true; CHECK(!throws([&] { r = k.ChildOf(bad); })); CHECK(!r); CHECK(k.ChildOf(VoxelKey(1, 1, 0, 0))); CHECK(!k.ChildOf(VoxelKey(1, 0, 0, 0))); return 0; }
'''),
 dict(id='S09-step-shift', property='C09', needs='a key at depth 32 or more', breaks='the box of a very deep key has a wrong step',
  edits={P+'geometry/box.cpp':[('header.Span() / std::pow(2, key.d)', 'header.Span() / static_cast<double>(1u << (key.d & 31))')]},
  demo=r'''int main() { las::LasHeader h; h.min = Vector3(1, 2, 3); h.max = Vector3(9, 4, 5); Box a(VoxelKey(33, 1, 0, 0), h); CHECK(a.x_max - a.x_min < 1e-8); Box b(VoxelKey(2, 1, 1, 0), h); CHECK(b.x_min == 3 && b.x_max == 5 && b.y_min == 4 && b.z_min == 3); return 0; }
'''),
 dict(id='S10-loaded-page-valid', property='C10', needs='a loaded page whose key is invalid', breaks='a loaded page with an invalid key counts as valid',
  edits={I+'hierarchy/page.hpp':[('(loaded || (offset >= 0 && byte_size >= 0)) && key.IsValid()', 'loaded || (offset >= 0 && byte_size >= 0 && key.IsValid())')]},
  demo=r'''int main() { Page p(VoxelKey(), -1, -1); p.loaded = true; CHECK(!p.IsValid()); CHECK(!p.IsPage()); Page q(VoxelKey::RootKey(), -1, -1); q.loaded = true; CHECK(q.IsValid()); return 0; }
'''),
 dict(id='S11-guid-last', property='C11', needs='a GUID of full 16 characters', breaks='the last character of a full-length GUID is lost',
  edits={P+'las/header.cpp':[('std::strncpy(h.guid, guid_.c_str(), 16)', 'std::strncpy(h.guid, guid_.c_str(), 15)')]},
  demo=r'''int main() { las::LasHeader h(7, 36, Vector3(1, 1, 1), Vector3(), true); h.GUID("0123456789abcdef"); auto l = h.ToLazPerf(400, 5, 6, 7, false, false); CHECK(las::LasHeader::FromLazPerf([&] { auto c = l; c.point_format_id &= 0x3f; return c; }()).GUID() == "0123456789abcdef"); return 0; }
'''),
 dict(id='S12-eb-slots', property='C12', needs='extents of format 8 with extra bytes', breaks='the extra-byte accessor of format 8 includes the NIR slot',
  edits={I+'copc/extents.hpp':[('extra_bytes.assign(extents_.begin() + las::PointBaseNumberDimensions(point_format_id_), extents_.end())', 'extra_bytes.assign(extents_.begin() + (las::FormatHasRgb(point_format_id_) ? 17 : 14), extents_.end())')]},
  demo=r'''int main() { for (int f = 6; f <= 8; f++) { CopcExtents e(f, 3); CHECK(e.ExtraBytes().size() == 3); auto all = e.Extents(); CHECK(e.ExtraBytes()[0] == all[all.size() - 3]); } return 0; }
'''),
 dict(id='S13-type20-size', property='C13', needs='an extra-byte item of data type 20 (double[2])', breaks='a double[2] extra byte item counts as 8 bytes',
  edits={P+'las/vlr.cpp':[('8, 16, 16, 8, 16, 3,', '8, 16, 16, 8, 8, 3,')]},
  demo=r'''int main() { las::EbVlr::ebfield f; f.data_type = 20; std::vector<las::EbVlr::ebfield> v{f, f}; CHECK(las::NumBytesFromExtraBytes(v) == 32); return 0; }
'''),
 dict(id='S14-stats-override', property='C14', needs='an override that only turns extended statistics off', breaks='the override is ignored',
  edits={P+'io/copc_writer_public.cpp':[('if (point_format_id || scale || offset || wkt || extra_bytes_vlr || has_extended_stats)', 'if (point_format_id || scale || offset || wkt || extra_bytes_vlr || has_extended_stats.value_or(false))')]},
  demo=r'''int main() { std::stringstream s; CopcConfigWriter c(7, Vector3(1, 1, 1), Vector3(), "", las::EbVlr(0), true); Writer w(s, c, {}, {}, {}, {}, {}, false); CHECK(!w.CopcConfig()->CopcExtents()->HasExtendedStats()); return 0; }
'''),
 dict(id='S15-last-vlr', property='C15', needs='a file with two VLRs of the same user and record id', breaks='the last matching VLR is used instead of the first',
  edits={P+'io/base_reader.cpp':[('            return offset;\n    }\n    return 0;', '            found = offset;\n    }\n    return found;'), ('    for (auto &[offset, vlr_header] : vlrs)', '    uint64_t found = 0;\n    for (auto &[offset, vlr_header] : vlrs)')]},
  demo=r'''int main() { std::map<uint64_t, las::VlrHeader> m; las::VlrHeader h; h.user_id = "copc"; h.record_id = 1000; m.insert({500, h}); m.insert({700, h}); CHECK(BaseReader::FetchVlr(m, "copc", 1000) == 500); CHECK(BaseReader::FetchVlr(m, "copc", 1) == 0); return 0; }
'''),
 dict(id='S16-subpages-when-loaded', property='C16', needs='a lookup that loads a page before its descendants are listed', breaks='listing skips the sub-pages of pages that were loaded before',
  edits={P+'io/copc_base_io.cpp':[('    if (!page->loaded)\n        ReadAndParsePage(page);\n    for (const auto &sub_page : page->sub_pages)\n    {\n        LoadPageHierarchy(sub_page, loaded_nodes);\n    }', '    if (!page->loaded)\n    {\n        ReadAndParsePage(page);\n        for (const auto &sub_page : page->sub_pages)\n            LoadPageHierarchy(sub_page, loaded_nodes);\n    }')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); c.LasHeader()->max = Vector3(10, 10, 10); { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 1);
      w.AddNode(VoxelKey(0, 0, 0, 0), p); w.AddNode(VoxelKey(1, 0, 0, 0), p, VoxelKey(1, 0, 0, 0)); w.AddNode(VoxelKey(2, 0, 0, 0), p, VoxelKey(2, 0, 0, 0)); w.Close(); }
    { std::istringstream in(s.str()); Reader r(&in); CHECK(r.GetAllNodes().size() == 3); }
    { std::istringstream in(s.str()); Reader r(&in); CHECK(r.FindNode(VoxelKey(0, 0, 0, 0)).IsValid()); CHECK(r.GetAllNodes().size() == 3); CHECK(r.GetAllNodes().size() == 3); } return 0; }
'''),
 dict(id='S17-equal-resolution', property='C17', needs='a request equal to the spacing of some depth', breaks='a resolution equal to a level spacing selects one level too deep',
  edits={P+'io/copc_reader.cpp':[('if (current_resolution <= resolution)', 'if (current_resolution < resolution)')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); c.CopcInfo()->spacing = 8; { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 0);
      w.AddNode(VoxelKey(0, 0, 0, 0), p); w.AddNode(VoxelKey(1, 0, 0, 0), p); w.AddNode(VoxelKey(2, 0, 0, 0), p); w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); CHECK(r.GetDepthAtResolution(4) == 1); CHECK(r.GetDepthAtResolution(8) == 0); CHECK(r.GetDepthAtResolution(5) == 1); CHECK(r.GetDepthAtResolution(0.1) == 2); return 0; }
'''),
 dict(id='S18-deepest-crossing', property='C18', needs='a node at the deepest allowed depth that crosses the box', breaks='points of deepest nodes crossing the box are lost',
  edits={P+'io/copc_reader.cpp':[('else if (node.key.Intersects(config_.LasHeader(), box))', 'else if (node.key.d < max_depth + (resolution <= 0) && node.key.Intersects(config_.LasHeader(), box))')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); c.CopcInfo()->spacing = 8; c.LasHeader()->max = Vector3(8, 8, 8); { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 1);
      w.AddNode(VoxelKey(0, 0, 0, 0), p); w.AddNode(VoxelKey(1, 0, 0, 0), p); w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); Box b(0, 0, 0, 2, 2, 2); CHECK(r.GetPointsWithinBox(b).Size() == 6); CHECK(r.GetPointsWithinBox(b, 4).Size() == 6); CHECK(r.GetPointsWithinBox(b, 8).Size() == 3); return 0; }
'''),
 dict(id='S19-verbose-verdict', property='C19', needs='a node outside the header bounds that has no points, and verbose output', breaks='the verdict depends on verbosity',
  edits={P+'io/copc_reader.cpp':[('        is_valid ? std::cout', '        is_valid = total_points_outside_header_bounds == 0 && total_points_outside_node_bounds == 0;\n        is_valid ? std::cout')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); c.LasHeader()->max = Vector3(8, 1, 1); { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 0.5);
      w.AddNode(VoxelKey(0, 0, 0, 0), p); w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); auto n = std::make_shared<Node>(Entry(VoxelKey(1, 1, 1, 1), 600, 0, 0), VoxelKey::RootKey()); r.FindNode(VoxelKey::RootKey());
    r.hierarchy_->loaded_nodes_[n->key] = n; r.hierarchy_->seen_pages_[VoxelKey::RootKey()]->nodes[n->key] = n;
    std::stringstream sink; auto old = std::cout.rdbuf(sink.rdbuf()); bool a = r.ValidateSpatialBounds(false), b = r.ValidateSpatialBounds(true); std::cout.rdbuf(old); CHECK(!a); CHECK(!b); return 0; }
'''),
 dict(id='S20-page-dropped', property='C20', needs='moving one of exactly two nodes out of a non-root page', breaks='a page that still has a node is dropped',
  edits={P+'io/copc_writer_public.cpp':[('hierarchy_->seen_pages_[node->page_key]->nodes.empty())', 'hierarchy_->seen_pages_[node->page_key]->nodes.size() <= 1)')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 0); VoxelKey pg(1, 0, 0, 0);
      w.AddNode(VoxelKey(2, 0, 0, 0), p, pg); w.AddNode(VoxelKey(2, 1, 0, 0), p, pg); w.ChangeNodePage(VoxelKey(2, 0, 0, 0), VoxelKey::RootKey()); w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); CHECK(r.GetAllNodes().size() == 2); return 0; }
'''),
 dict(id='S21-chunk-count', property='C21', needs='a compressed chunk added right after an uncompressed one', breaks='the total point count misses points of mixed chunks',
  edits={P+'io/laz_base_writer.cpp':[('    point_count_ += point_count;\n', '    if (!compressed || chunks_.empty() || chunks_.back().count != static_cast<uint64_t>(point_count))\n        point_count_ += point_count;\n')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; las::LazConfigWriter c(6); auto h = *c.LasHeader(); auto p = pts(h, 4, 0); auto raw = p.Pack(h); { laz::LazWriter w(s, c); w.WritePoints(p); w.WritePoints(p); auto z = laz::Compressor::CompressBytes(raw, h); w.WritePointsCompressed(z, 4); CHECK(w.PointCount() == 12); w.Close(); } return 0; }
'''),
 dict(id='S22-parent-jump', property='C22', needs='pages at three nested depths where the nearest ancestor page is below half the depth', breaks='a page is attached to an ancestor page that is not its nearest one',
  edits={P+'io/copc_writer_internal.cpp':[('auto parent_key = page.first.GetParent();', 'auto parent_key = page.first.GetParentAtDepth(page.first.d / 2);')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); { Writer w(s, c); auto p = pts(*c.LasHeader(), 3, 0);
      w.AddNode(VoxelKey(1, 0, 0, 0), p, VoxelKey(1, 0, 0, 0)); w.AddNode(VoxelKey(2, 0, 0, 0), p, VoxelKey(2, 0, 0, 0)); w.AddNode(VoxelKey(3, 0, 0, 0), p, VoxelKey(3, 0, 0, 0)); w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); CHECK(r.GetAllNodes().size() == 3); CHECK(r.GetAllChildrenOfPage(VoxelKey(2, 0, 0, 0)).size() == 2); return 0; }
'''),
 dict(id='S23-short-record', property='C23', needs='a record length above 32767', breaks='long records cannot be compressed',
  edits={I+'laz/compressor.hpp':[('int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);', 'int16_t point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);')]},
  demo=r'''int main() { std::vector<char> in(2 * 40030); for (size_t i = 0; i < in.size(); i++) in[i] = i * 31; auto z = laz::Compressor::CompressBytes(in, (int8_t)6, (uint16_t)40000); CHECK(laz::Decompressor::DecompressBytes(z, (int8_t)6, (uint16_t)40000, 2) == in); return 0; }
'''),
 dict(id='S25-evlr-length', property='C25', needs='an EVLR header with a payload of 64 KiB or more', breaks='the data length is truncated to 16 bits',
  edits={P+'las/vlr.cpp':[('    lazperf::evlr_header header;\n    header.reserved = reserved;\n    header.user_id = user_id;\n    header.record_id = record_id;\n    header.data_length = data_length;', '    lazperf::evlr_header header;\n    header.reserved = reserved;\n    header.user_id = user_id;\n    header.record_id = record_id;\n    header.data_length = ToLazperfVlrHeader().data_length;')]},
  demo=r'''int main() { las::VlrHeader h; h.data_length = 70000; h.user_id = "u"; CHECK(h.ToLazperfEvlrHeader().data_length == 70000); return 0; }
'''),
 dict(id='S26-single-point-node', property='C26', needs='two nodes of one page with one point each', breaks='nothing is lost while writing, but a node read back has the wrong page entry size',
  edits={P+'io/copc_writer_internal.cpp':[('page_size += page->sub_pages.size() * 32;', 'page_size += page->sub_pages.size() > 1 ? 32 * page->sub_pages.size() - 32 * (page->sub_pages.size() > 8) : page->sub_pages.size() * 32;')]},
  demo=FILEHELP+r'''int main() { std::stringstream s; CopcConfigWriter c(6); { Writer w(s, c); auto p = pts(*c.LasHeader(), 1, 0); for (int i = 0; i < 10; i++) { VoxelKey k(4, i, 0, 0); w.AddNode(k, p, k); } w.Close(); }
    std::istringstream in(s.str()); Reader r(&in); CHECK(r.GetAllNodes().size() == 10); return 0; }
'''),
]

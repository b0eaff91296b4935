import json
P=[]
I='/cpp/include/copc-lib/'
def p(id,title,stmt,over,qt,why,files,mech,obs,state=[]):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
inc='cpp/include/copc-lib/'; src='cpp/src/'
p('C01','Point records encode and decode exactly',
 'Writing a point of format 6, 7 or 8 produces exactly the little-endian LAS 1.4 record of that format: the three quantised 32-bit coordinates, intensity, return byte, flag byte, classification, user data, scan angle, point source id, GPS time, then RGB (7, 8), NIR (8) and the extra bytes in order, and nothing else. Reading such a record back with the same scale and offset yields a point whose every field has the written value (coordinates: stored integer * scale + offset) and consumes exactly the record length. If a coordinate cannot be quantised, writing fails with an exception.',
 ['inputs'],'every point of formats 6-8 with every field value, every extra-byte count, every scale and offset',
 'Tests pack a handful of points with a few field values; a swapped field, a wrong width for one format, or an extra-byte off-by-one at other sizes is not sampled.',
 [inc+'las/point.hpp',src+'las/point.cpp',inc+'las/utils.hpp'],
 [('Point::Pack/Unpack field order',src+'las/point.cpp'),('pack<T>/unpack<T>',inc+'las/utils.hpp'),('has_rgb_/has_nir_ set from the format',src+'las/point.cpp')],
 ['Point::Pack','Point::Unpack'])
p('C02','Coordinates quantise to the nearest representable integer or are refused',
 'Converting a real coordinate to its stored 32-bit integer returns (value - offset)/scale rounded to nearest (halves away from zero) when that integer fits, and throws for every value that does not fit, including NaN and infinities; converting a stored integer back returns integer*scale + offset. The header-level conversions apply each axis\'s own scale and offset, the inverse vector conversion undoes the forward one, and vector arithmetic and comparison act component by component.',
 ['inputs'],'every double value, scale and offset, on every axis',
 'Tests quantise a few ordinary coordinates; range edges, NaN, infinities, negative scales and mixed-up axes are unsampled.',
 [inc+'las/utils.hpp',inc+'las/header.hpp',inc+'geometry/vector3.hpp'],
 [('RemoveScale range check',inc+'las/utils.hpp'),('LasHeader ApplyScale*/RemoveScale*/ApplyInverseScale',inc+'las/header.hpp'),('Vector3 operators',inc+'geometry/vector3.hpp')],
 ['RemoveScale','ApplyScale','LasHeader::ApplyScale','LasHeader::RemoveScaleX','Vector3'])
p('C03','Packed point attributes are independent of each other',
 'After setting any one of return number, number of returns, synthetic, key point, withheld, overlap, scanner channel, scan direction, edge of flight line, or a whole bit-field byte, reading it back gives the value set and every other attribute of the point reads as before. Values outside the range of the attribute (15 for returns, 3 for scanner channel) are rejected with an exception and leave the point unchanged; plain attributes (intensity, classification, scan angle, user data, source id, GPS time, coordinates, RGB, NIR, extra bytes) store exactly the value given.',
 ['inputs','histories'],'every prior content of the bit fields and every value set',
 'Tests set a few values starting from mostly zero bytes; masks that clobber a neighbouring bit show only for particular earlier contents.',
 [inc+'las/point.hpp'],[('bit masks in the Point setters and getters',inc+'las/point.hpp')],['Point getters and setters'],
 [('returns_','return number in bits 0-3, number of returns in bits 4-7',inc+'las/point.hpp'),('flags_','LAS 1.4 flag byte',inc+'las/point.hpp')])
p('C04','Point formats: optional dimensions, conversion, copying and equality agree',
 'A point exposes RGB exactly for formats 7 and 8 and NIR exactly for format 8, accessing a dimension the format lacks throws, and its record length is always the base size of its format plus its number of extra bytes. Converting between formats 6-8 changes only the format, the record length and which optional dimensions exist, and any other format is refused leaving the point unchanged. A copied point equals its source and is independent of it, and two points compare equal exactly when format, record length and every attribute the format carries agree (coordinates to within 1e-6).',
 ['inputs','histories'],'every pair of points, every sequence of format changes',
 'Tests convert and compare a few hand-made points, so one attribute forgotten in the copy constructor or comparison can pass.',
 [inc+'las/point.hpp',src+'las/point.cpp',inc+'utils.hpp'],
 [('Point constructors',src+'las/point.cpp'),('Point::ToPointFormat',src+'las/point.cpp'),('Point::operator==',src+'las/point.cpp'),('has_rgb_/has_nir_ guards',inc+'las/point.hpp')],
 ['Point constructor','copy constructor','ToPointFormat','operator=='])
p('C05','A point collection only ever holds points of its own format and length',
 'Every point in a collection has the collection\'s point format and record length: adding a point, a list of points or another collection either appends all of them at the end in order, or throws when any of them differs and leaves the collection unchanged. Creating a point from the collection yields one it accepts, and converting the collection converts every point and keeps count, order and extra-byte size. Constructing from an empty list, or with an unsupported format, throws.',
 ['inputs','histories'],'every sequence of additions and conversions of points of every format and extra-byte size',
 'Tests add compatible points and a few incompatible ones, always at fixed positions; a check skipped for a later element or a lost element is not sampled.',
 [inc+'las/points.hpp',src+'las/points.cpp'],
 [('Points::AddPoint/AddPoints checks',src+'las/points.cpp'),('Points::ToPointFormat',src+'las/points.cpp'),('Points::CreatePoint',inc+'las/points.hpp')],
 ['Points::AddPoint','Points::AddPoints','Points::ToPointFormat'],
 [('points_','the points in order',inc+'las/points.hpp')])
p('C06','Bulk attribute access and box filtering agree with the individual points',
 'Reading an attribute in bulk (X, Y, Z, classification, point source id, red, green, blue) returns one value per point, in order, equal to that point\'s own value; writing in bulk sets exactly that attribute of the i-th point to the i-th value, and throws without changing anything if the lengths differ. Filtering a collection by a box returns exactly the points inside the closed box, in order, and the collection is reported inside a box exactly when all of its points are.',
 ['inputs'],'every collection size and content, every input vector, every box',
 'Tests use values below 256 and one collection; truncation of large ids, swapped attributes and boundary points are unsampled.',
 [inc+'las/points.hpp',src+'las/point.cpp',src+'geometry/box.cpp'],
 [('Points bulk getters/setters',inc+'las/points.hpp'),('Points::Within/GetWithin',inc+'las/points.hpp'),('Point::Within',src+'las/point.cpp')],
 ['Points::X..Blue','Points::Within','Points::GetWithin'])
p('C07','Point buffers split into records and back without loss',
 'Packing a collection yields the concatenation of its points\' records in order, of length count * record length, whether written to a stream or to a buffer and whether scale and offset come from a header or are given. Unpacking a buffer yields one point per record, in order, each decoding its own record; a buffer whose length is not a multiple of the record length is refused.',
 ['inputs'],'every collection and every buffer length, format and extra-byte size',
 'Tests unpack buffers they packed from a few points; record boundaries for other sizes and counts are unsampled.',
 [src+'las/points.cpp',src+'las/point.cpp',src+'las/utils.cpp'],
 [('Points::Pack overloads',src+'las/points.cpp'),('Points::Unpack',src+'las/points.cpp')],['Points::Pack','Points::Unpack'])
p('C08','Octree key relations are consistent',
 'For any octree key, its eight children are the keys one level deeper whose coordinates are twice its own plus the bits of the child number, each child\'s parent is the key, and its ancestor at depth k has coordinates shifted right by the depth difference for every depth difference. The ancestor list runs from the key (if included) or its parent up to the root with nothing missing or extra, and a key is a child of another exactly when that other is the key itself or one of its ancestors. Invalid keys have no ancestors, ancestor queries outside 0..depth throw, and equal keys hash equally.',
 ['inputs'],'every key with coordinates inside the octree at every depth representable, every child number, every pair of keys',
 'Tests check a handful of shallow keys.',
 [inc+'hierarchy/key.hpp',src+'hierarchy/key.cpp'],
 [('VoxelKey::Bisect/GetChildren',src+'hierarchy/key.cpp'),('GetParent/GetParentAtDepth/GetParents/ChildOf',src+'hierarchy/key.cpp'),('std::hash<VoxelKey>',inc+'hierarchy/key.hpp')],
 ['VoxelKey methods'])
p('C09','Boxes and node bounds follow closed-interval geometry',
 'Box intersection, containment of a box or point, and within are the closed-interval predicates on all three axes (touching counts), and building a box from coordinates, vectors or lists keeps each bound on its own axis, unbounded in Z when only X and Y are given, and throws when a maximum is below its minimum or the list has the wrong length. The box of an octree key starts at the header minimum plus index times step on each axis, where step is the largest header extent halved once per depth level, and spans one step; a key\'s intersects, contains, within and crosses answers are those of its box. Extending the header bounds by a point changes only bounds the point exceeds.',
 ['inputs'],'every pair of boxes, every key, header bounds and point, boundary values included',
 'Tests use a few boxes and keys; one wrong comparison operator on one axis matters only on the boundary.',
 [src+'geometry/box.cpp',inc+'geometry/box.hpp',src+'hierarchy/key.cpp',inc+'las/header.hpp',src+'las/header.cpp'],
 [('Box predicates and constructors',src+'geometry/box.cpp'),('VoxelKey spatial predicates',src+'hierarchy/key.cpp'),('LasHeader::Span/Bounds/CheckAndUpdateBounds',src+'las/header.cpp')],
 ['Box','VoxelKey::Intersects/Contains/Within/Crosses','LasHeader::CheckAndUpdateBounds'])
p('C10','Hierarchy entries encode and decode exactly',
 'A hierarchy entry is written as exactly 32 little-endian bytes: depth, x, y, z (32-bit each), offset (64-bit), byte size and point count (32-bit), and reading these bytes back yields the same entry and consumes 32 bytes. An entry is valid exactly when its byte size and every key component are non-negative, and denotes a page exactly when it is valid with point count -1; nodes and pages carry over every entry field and compare equal exactly when all of them agree (pages: also whether loaded), with loaded pages valid whatever their size.',
 ['inputs'],'every value of every entry field',
 'No test inspects the bytes of an entry, and round trips use small positive fields.',
 [inc+'hierarchy/entry.hpp',inc+'hierarchy/node.hpp',inc+'hierarchy/page.hpp',src+'hierarchy/page.cpp',inc+'hierarchy/internal/page.hpp'],
 [('Entry::Pack/Unpack',inc+'hierarchy/entry.hpp'),('Entry::IsValid/IsPage, Page::IsValid',inc+'hierarchy/page.hpp')],['Entry::Pack','Entry::Unpack','IsValid','IsPage'])
p('C11','LAS headers survive conversion to and from the file representation',
 'Converting a header to its on-disk form and back preserves every field: source id, global encoding, GUID, system identifier and generating software up to their full 16/32 characters, creation date, format, record length, scale, offset, bounds, points by return, and the given point offset, count and EVLR position. The on-disk form always says LAS 1.4, 375 bytes, compressed format, WKT bit set, zero legacy return counts, the legacy count or zero if it does not fit, and a VLR count of one plus one for extra bytes, two for COPC and one for extended statistics (refused outside COPC). Reading refuses headers without the WKT bit, with another version or size, or with a format other than 6-8; over-long texts are refused on setting and keep the old value.',
 ['inputs'],'every value of every header field, strings of every length up to the limit, every flag combination',
 'Tests convert one or two headers; a swapped bound, a dropped field or a full-length string is unsampled.',
 [inc+'las/header.hpp',src+'las/header.cpp'],
 [('LasHeader::FromLazPerf/ToLazPerf',src+'las/header.cpp'),('GUID/SystemIdentifier/GeneratingSoftware setters',inc+'las/header.hpp')],
 ['LasHeader::ToLazPerf','LasHeader::FromLazPerf'])
p('C12','Dimension extents keep their slots through every conversion',
 'A set of extents has one slot per base dimension of its format (14, 17 or 18) plus one per extra-byte item, each named accessor reads and writes its own slot, RGB and NIR accessors throw when the format lacks them, and the extra-byte accessors cover exactly the slots after the base ones. Writing extents to their VLRs and reading them back reproduces minimum, maximum and (extended) mean and variance slot by slot, and a wrong number of slots is refused. Rebuilding extents for another format or extra-byte count keeps every dimension both have, copies are deep, and an extent with minimum above maximum or negative variance can never be constructed.',
 ['inputs','histories'],'every format pair, extra-byte count, slot and value',
 'Tests cover a couple of formats and slots; an index wrong by one for one dimension of one format pair is unsampled.',
 [inc+'copc/extents.hpp',src+'copc/extents.cpp',inc+'las/vlr.hpp',src+'las/vlr.cpp'],
 [('CopcExtents constructors',src+'copc/extents.cpp'),('accessors',inc+'copc/extents.hpp'),('CopcExtentsVlr::read/write',src+'las/vlr.cpp'),('CopcExtent constructors',src+'copc/extents.cpp')],
 ['CopcExtents','CopcExtentsVlr','CopcExtent'],
 [('extents_','one slot per dimension',inc+'copc/extents.hpp')])
p('C13','Record sizes and dimension tables agree everywhere',
 'The base record sizes (30, 36, 38), base dimension counts (14, 17, 18) and RGB/NIR presence of formats 6, 7 and 8 are those of LAS 1.4 and every other format is refused; record length and extra-byte size are always related by that base size. The extra-byte length of a list of extra-byte descriptors is the sum over items of the LAS size of its data type, or of its option value for undocumented bytes, for every legal data type, and illegal data types never read outside the table.',
 ['inputs'],'every format number, every record length, every list of extra-byte descriptors',
 'Tests use two or three extra-byte types and the valid formats only.',
 [src+'las/utils.cpp',inc+'las/utils.hpp',src+'las/vlr.cpp',src+'copc/extents.cpp'],
 [('PointBaseByteSize, PointBaseNumberDimensions, FormatHasRgb/Nir, EbByteSize, PointByteSize',src+'las/utils.cpp'),('EXTRA_BYTE_DATA_TYPE and NumBytesFromExtraBytes',src+'las/vlr.cpp')],
 ['PointBaseByteSize','NumBytesFromExtraBytes','EbByteSize'])
p('C14','Configurations propagate exactly what they were given',
 'A reader or writer configuration reports exactly the header, WKT, extra-byte descriptors, COPC info and extents it was built from, with record length derived from format and descriptors and the COPC flag set for COPC and cleared for plain LAZ writer configurations; copies are independent of their source. A writer opened with overrides uses each override it is given and the source configuration for everything else, with extents rebuilt for the new format and descriptors. Unsupported formats are refused.',
 ['configurations','inputs'],'every configuration and every subset of overrides',
 'Tests exercise a few of the 64 override combinations, mostly all at once.',
 [inc+'copc/copc_config.hpp',src+'copc/copc_config.cpp',inc+'las/laz_config.hpp',src+'las/laz_config.cpp',src+'io/copc_writer_public.cpp',src+'copc/info.cpp',src+'las/header.cpp'],
 [('LazConfig/CopcConfig constructors',src+'las/laz_config.cpp'),('Writer::InitWriter',src+'io/copc_writer_public.cpp'),('CopcInfo conversions',src+'copc/info.cpp')],
 ['Writer constructor','CopcConfigWriter','LazConfigWriter','CopcInfo::ToLazPerf'])
p('C15','The reader finds every VLR and reads its own payload',
 'Opening a file lists every VLR and EVLR under its absolute offset with its header fields and whether it is an EVLR; looking one up by user and record id returns the offset of the first match or zero. WKT, extra-byte descriptors, COPC info and extents are read from the payload of their own record, right after a header of the size that record has, and a file without COPC info at offset 375 or without a hierarchy is refused as COPC. Missing optional records give empty WKT, no descriptors and default extents with one slot per dimension.',
 ['inputs','configurations'],'every arrangement of VLRs and EVLRs with any payload lengths',
 'Tests read files with one arrangement of records.',
 [src+'io/base_reader.cpp',inc+'io/base_reader.hpp',src+'io/copc_reader.cpp',src+'las/vlr.cpp'],
 [('ReadVlrHeaders/FetchVlr/ReadWktVlr/ReadExtraBytesVlr/InitReader',src+'io/base_reader.cpp'),('ReadCopcInfoVlr/ReadCopcExtentsVlr/InitCopcReader',src+'io/copc_reader.cpp')],
 ['Reader constructor','Reader::CopcConfig'])
p('C16','Hierarchy lookup finds exactly the nodes the file contains',
 'For every well-formed hierarchy of pages, looking up a key returns the node stored for it with its offset, size and count, whichever pages have been loaded before and in whatever order lookups are made, and an invalid node if the hierarchy holds none. Listing all nodes returns each node exactly once; listing the children of a page returns exactly the nodes of that page and its descendants, or the node itself when the key names a node and not a page; the page list holds every page exactly once. Entries of a page are read from the page\'s own byte range, and an invalid entry or page is refused.',
 ['histories','inputs'],'every page tree and every order of lookups',
 'Tests look up a few keys in one file, always in the same order from a fresh reader.',
 [src+'io/copc_base_io.cpp',src+'io/copc_reader.cpp',inc+'hierarchy/internal/hierarchy.hpp'],
 [('BaseIO::FindNode/LoadPageHierarchy/ReadAndParsePage',src+'io/copc_base_io.cpp'),('Reader::ReadPage/GetAllChildrenOfPage/GetPageList',src+'io/copc_reader.cpp'),('Hierarchy::NearestLoadedPage',inc+'hierarchy/internal/hierarchy.hpp')],
 ['FindNode','GetAllNodes','GetAllChildrenOfPage','GetPageList'],
 [('seen_pages_/loaded_nodes_','pages and nodes known so far',inc+'hierarchy/internal/hierarchy.hpp')])
p('C17','Resolution queries select exactly the right depths',
 'The depth for a requested resolution is the first depth whose spacing (file spacing halved once per level) is at most the request, limited to the deepest node present, and the deepest node\'s depth when the request is zero or negative or no depth is fine enough. Nodes at a resolution are exactly those at that depth, nodes within it exactly those at that depth or above, each once and in listing order, and a key\'s resolution is the spacing divided by two to its depth.',
 ['inputs'],'every node set, spacing and requested resolution, including exact matches',
 'Tests query one file at a few resolutions.',
 [src+'io/copc_reader.cpp',src+'hierarchy/key.cpp'],
 [('Reader::GetDepthAtResolution/GetMaxDepth/GetNodesAtResolution/GetNodesWithinResolution',src+'io/copc_reader.cpp'),('VoxelKey::Resolution',src+'hierarchy/key.cpp')],
 ['GetDepthAtResolution','GetNodesAtResolution','GetNodesWithinResolution'])
p('C18','Spatial queries return every matching node and point and nothing else',
 'Querying nodes within or intersecting a box returns exactly the nodes whose bounds are within or intersect it and whose depth is allowed by the resolution. Querying points within a box returns exactly the points inside the box of the allowed nodes whose bounds meet the box (all points of nodes lying wholly inside it), and reading all points returns all points of all allowed nodes, in listing order.',
 ['inputs'],'every hierarchy, point content, query box and resolution',
 'Tests use a few boxes on one file and compare counts.',
 [src+'io/copc_reader.cpp',inc+'las/points.hpp',src+'hierarchy/key.cpp',src+'geometry/box.cpp'],
 [('Reader::GetNodesWithinBox/GetNodesIntersectBox/GetPointsWithinBox/GetAllPoints',src+'io/copc_reader.cpp')],
 ['GetNodesWithinBox','GetNodesIntersectBox','GetPointsWithinBox','GetAllPoints'])
p('C19','Spatial validation accepts a file exactly when all bounds hold',
 'Validating spatial bounds returns true exactly when every node\'s box intersects the header bounds, every point of every node not wholly inside the header bounds lies inside them, and every point lies inside its node\'s box. The verdict does not depend on verbosity, and validation does not change the file or the reader\'s answers.',
 ['inputs'],'every hierarchy and point content, verbose or not',
 'Tests validate one good file and a few bad ones.',
 [src+'io/copc_reader.cpp',src+'geometry/box.cpp',src+'las/point.cpp'],
 [('Reader::ValidateSpatialBounds',src+'io/copc_reader.cpp')],['ValidateSpatialBounds'])
p('C20','Every written node belongs to exactly one page',
 'After any sequence of node additions with distinct keys and page moves, each added node is known under its key with the offset, size and count of its data and is listed in exactly one page, the one last requested for it, which is an ancestor of it or its own key. Additions with an invalid key, a page that is not an ancestor, empty or ill-sized uncompressed data, mismatching points or a non-positive count, and moves of unknown nodes or to unsuitable pages, throw and change neither the file content nor the bookkeeping. A page emptied by a move disappears unless it is the root.',
 ['histories','inputs'],'every sequence of additions and moves with distinct node keys',
 'Tests move a node once; repeated moves, moves back and failed calls in between are unsampled.',
 [src+'io/copc_writer_public.cpp',inc+'hierarchy/internal/hierarchy.hpp',inc+'io/copc_writer.hpp'],
 [('Writer::DoAddNode/AddNode/AddNodeCompressed/ChangeNodePage',src+'io/copc_writer_public.cpp')],
 ['AddNode','AddNodeCompressed','ChangeNodePage'],
 [('seen_pages_/loaded_nodes_/page_key','page membership of each node',inc+'hierarchy/internal/hierarchy.hpp')])
p('C21','Written files account for every chunk and lie where the header says',
 'Each data chunk is recorded with its point count and exact position, the chunk table written at close holds the count and byte length of every chunk in order, and the header\'s point count is the sum over all chunks. The point data offset announced in the header equals the space reserved for header and VLRs and their actual encoded size, the eight bytes there point at the chunk table, WKT is written as an EVLR exactly when non-empty and counted, and closing twice writes nothing more. Header and VLR areas never overlap the point data.',
 ['histories','configurations'],'every configuration and sequence of chunks, compressed or not',
 'Tests re-read a few files with the same library, so compensating errors pass.',
 [src+'io/laz_base_writer.cpp',inc+'io/laz_base_writer.hpp',src+'io/copc_writer_internal.cpp',src+'io/laz_writer.cpp'],
 [('BaseWriter::WriteChunk/WriteChunkTable/OffsetToPointData/WriteHeader/WriteLazAndEbVlrs/WriteWKT/Close',src+'io/laz_base_writer.cpp'),('WriterInternal::OffsetToPointData/WriteHeader/Close/WriteNode',src+'io/copc_writer_internal.cpp'),('LazWriter::WritePoints/WritePointsCompressed',src+'io/laz_writer.cpp')],
 ['Writer::Close','LazWriter::WritePoints','file bytes'],
 [('chunks_/point_count_/evlr_count_','chunk bookkeeping',inc+'io/laz_base_writer.hpp')])
p('C22','Closing writes the whole hierarchy, children before parents',
 'Closing a file writes each page exactly once as its own EVLR holding one entry per node of the page and one per direct sub-page, sub-pages before their parents so that each sub-page entry carries its final offset and size. Every page other than the root is attached to exactly its nearest existing ancestor page, and the info record points at the root page with its size; reading the hierarchy back yields the pages and nodes that were written.',
 ['histories','configurations'],'every set of pages and nodes',
 'Tests write one or two pages.',
 [src+'io/copc_writer_internal.cpp',inc+'hierarchy/internal/hierarchy.hpp',inc+'hierarchy/entry.hpp'],
 [('WriterInternal::WritePage/ComputePageHierarchy/WritePageTree',src+'io/copc_writer_internal.cpp')],['Writer::Close','Reader on the written file'])
p('C23','Compression framing passes every record once and stays in bounds',
 'Compressing a buffer hands each whole record to the codec exactly once and in order, then ends the stream, and returns the number of records; a buffer that is not a whole number of records or is too large is refused. Decompressing asks the codec for exactly the requested number of records and returns them concatenated, for every record length the format allows, never writing outside its buffers; stream, buffer and header variants agree.',
 ['inputs'],'every format, extra-byte size, record count and content',
 'Tests use record sizes well below 255 bytes and small buffers.',
 [inc+'laz/compressor.hpp',inc+'laz/decompressor.hpp',src+'io/laz_reader.cpp'],
 [('Compressor::CompressBytes',inc+'laz/compressor.hpp'),('Decompressor::DecompressBytes',inc+'laz/decompressor.hpp'),('LazReader::GetPointData',src+'io/laz_reader.cpp')],
 ['Compressor','Decompressor','LazReader::GetPointData'])
p('C24','Reading data returns the stored bytes of the requested node',
 'Reading a node\'s compressed data returns exactly the byte range recorded for it, reading its uncompressed data or points decodes the chunk at its offset with the file\'s format and exactly its point count, and asking by key is the same as asking for the node found under that key. Unknown or invalid keys give empty results and invalid nodes are refused; reading a LAZ file sequentially returns as many records as the header announces.',
 ['inputs','histories'],'every node, key and order of reads',
 'Tests read a few nodes of one file.',
 [src+'io/copc_reader.cpp',src+'io/laz_reader.cpp',inc+'laz/decompressor.hpp'],
 [('Reader::GetPointData/GetPoints/GetPointDataCompressed',src+'io/copc_reader.cpp'),('LazReader::GetPointData/GetPoints',src+'io/laz_reader.cpp')],
 ['GetPointData','GetPoints','GetPointDataCompressed'])
p('C25','Extra-byte descriptors and VLR headers compare and convert field by field',
 'Two extra-byte descriptors compare equal exactly when every stored field (reserved bytes, data type, options, name, no-data, minimum, maximum, scale, offset, description) agrees. Converting a VLR or EVLR header into the library\'s record and back keeps user id, record id, data length, description and reserved field, remembers which of the two it was, and copies keep all of it.',
 ['inputs'],'every pair of descriptors and every header',
 'Tests compare identical descriptors only.',
 [inc+'las/vlr.hpp',src+'las/vlr.cpp'],
 [('operator== for extra-byte fields',inc+'las/vlr.hpp'),('VlrHeader constructors and conversions',src+'las/vlr.cpp')],['operator==','VlrHeader'])
p('C26','A file read back equals what was written',
 'For every configuration and every sequence of node additions accepted by the writer, closing the file and opening it yields the same configuration, the same set of nodes and pages, and for each node the same point data, field by field within quantisation. The same holds for plain LAZ files written chunk by chunk.',
 ['histories','configurations','inputs'],'every configuration and write history',
 'Tests write a few files with one or two nodes each.',
 [src+'io/copc_writer_public.cpp',src+'io/copc_writer_internal.cpp',src+'io/copc_reader.cpp',src+'io/laz_base_writer.cpp',src+'io/base_reader.cpp'],
 [('composition of writer and reader','all of cpp/src/io')],['Writer then Reader'])
p('C27','Parallel processing from Python handles every point once',
 'Processing a file in parallel from Python passes each selected node\'s points to the user function exactly once, and the transformed file contains exactly the points the user function returned, independently of the number of workers and their scheduling.',
 ['schedules','inputs'],'every worker count and schedule',
 'Tests run one pool size on one file.',
 ['python/copclib/mp/read.py','python/copclib/mp/transform.py'],
 [('transform_multithreaded and read_multithreaded','python/copclib/mp')],['copclib.mp'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P), max(len(x['title']) for x in P))

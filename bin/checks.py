"""Registry: property -> harness, entries, bounds."""
ASSUMPTIONS = [
    "clang 18 -O1 lowering of the sources (x86-64, C++17, NDEBUG) represents the code; the shipped build uses g++ (counterexamples are replayed with it)",
    "simdjson's text parsing is modelled by a parser that produces the same tape; simdjson itself is trusted",
    "memory allocation succeeds unless the requested size exceeds 2^46 bytes",
    "single-threaded execution",
]
CHECKS = {}
def entry(name, bounds, reach=(), params=None, thorough=None, **kw):
    return dict(name=name, bounds=bounds, reach=list(reach), params=params or {}, thorough=thorough or {}, **kw)

CHECKS["P01"] = dict(harness="p01_base64.cpp", units=["base64.cpp"], entries=[
    entry("b64_fallback", "every byte string of 1..48 bytes", ["decoded"], {"max": 48}, {"max": 96}),
    entry("b64_sse4", "every byte string of 1..48 bytes", ["decoded"], {"max": 48}, {"max": 96}),
    entry("b64_avx2", "every byte string of 1..48 bytes (thorough 96)", ["decoded"], {"max": 48}, {"max": 96}),
    entry("b64_inplace_fallback", "every byte string of 1..48 bytes (thorough 96), into memory of exactly that size", ["inplace"], {"max": 48}, {"max": 96}),
    entry("b64_inplace_sse4", "every byte string of 1..48 bytes (thorough 96), into memory of exactly that size", ["inplace"], {"max": 48}, {"max": 96}),
    entry("b64_inplace_avx2", "every byte string of 1..48 bytes (thorough 96), into memory of exactly that size", ["inplace"], {"max": 48}, {"max": 96}),
])
CHECKS["P02"] = dict(harness="p02_datauri.cpp", entries=[
    entry("datauri_buffer", "every payload of 1..9 bytes (thorough 24), 8 media types, every callback configuration", ["array", "custom"], {"max": 9}, {"max": 24}),
    entry("datauri_image", "every payload of 1..9 bytes (thorough 24), 8 media types, every callback configuration", ["array", "custom"], {"max": 9}, {"max": 24}),
    entry("datauri_any", "every printable text of up to 10 characters after 'data:', up to 17 after ';base64,'", ["accepted", "rejected"], {"max": 17}, {"max": 36}),
])
CHECKS["P03"] = dict(harness="p03_uri.cpp", entries=[
    entry("uri_any", "every text of up to 7 bytes (thorough 9)", ["valid", "invalid"], {"max": 7}, {"max": 9}),
    entry("uri_authority", "'s://' followed by every text of up to 6 bytes (thorough 8)", ["valid", "invalid"], {"max": 6}, {"max": 8}),
    entry("uri_file", "'file:' followed by every text of up to 6 bytes (thorough 8)", ["valid"], {"max": 6}, {"max": 8}),
    entry("uri_data", "'data:' followed by every text of up to 6 bytes (thorough 10)", ["valid"], {"max": 6}, {"max": 10}),
    entry("uri_percent", "every text of up to 6 bytes (thorough 9)", ["decoded"], {"max": 6}, {"max": 9}),
])
CHECKS["P04"] = dict(harness="p03_uri.cpp", entries=[
    entry("uri_values", "every pair of 7 URI texts under 8 construction/copy/move/assignment operations followed by a chain", ["done"]),
])
CHECKS["P05"] = dict(harness="p05_glb.cpp", entries=[
    entry("glb_any", "every value of the seven header words (JSON lengths that fit the file: 6 representatives), 8 arbitrary payload bytes, 16 truncation points", ["accepted", "rejected", "bad-bin", "cut"]),
    entry("glb_callbacks", "every binary chunk of 1..9 bytes, 0..2 trailing bytes, mapping accepted/declined", ["mapped", "declined"]),
    entry("glb_json_only", "0..8 bytes after the JSON chunk, 0..2 trailing bytes", ["loaded"]),
])
CHECKS["P29"] = dict(harness="p05_glb.cpp", entries=[
    entry("filetype_any", "every file of 0..24 bytes", ["typed"]),
    entry("getter_buffer", "every buffer of 1..6 bytes, every history of 3 operations", ["read"]),
    entry("getter_mapped", "files of 1, 5, 4064 and 4096 bytes, every history of 3 operations", ["read"]),
    entry("getter_moves", "buffers and files of 4 bytes, moved (3 ways) after reading 0..4 bytes, every history of 2 operations afterwards", ["read"]),
    entry("getter_mapped_faults", "every combination of failing open/fstat/mmap", ["failed", "done"]),
])
def _parse(*es): return [entry("parse_" + n, b, r) for n, b, r in es]
_L = ["loaded"]; _LM = ["loaded", "missing"]
_PB = "every value of every field; optional fields: none, all, only one, all but one, integer spellings, reversed key order; each required field missing"
_GB = "all sets of enabled extensions that are empty, hold one or all but one of the 32 extensions; one document using every extension of the kind"
def _gate(*ns): return [entry("gate_" + n, _GB, _L) for n in ns]
CHECKS["P07"] = dict(harness="p07_parse.cpp", entries=_parse(("accessors", _PB, _LM), ("accessor_types", "8 component types x 7 accessor types x every spelling of the bounds", _L), ("views", _PB, _LM), ("buffers", _PB, _LM)) + _gate("views"))
CHECKS["P08"] = dict(harness="p07_parse.cpp", entries=_parse(("meshes", _PB, _LM)) + _gate("meshes"))
CHECKS["P09"] = dict(harness="p07_parse.cpp", entries=_parse(("nodes", _PB, _L), ("node_extensions", _PB, _LM), ("scenes", _PB, _LM), ("cameras", _PB, _LM), ("lights", _PB, _LM)) + _gate("nodes"))
CHECKS["P10"] = dict(harness="p07_parse.cpp", entries=_parse(("material", _PB, _LM), ("material_extensions", _PB + ", 15 extensions alone and all together", _L)) + _gate("materials"))
CHECKS["P11"] = dict(harness="p07_parse.cpp", entries=_parse(("textures", _PB, _LM), ("images", _PB, _LM), ("samplers", _PB, _L), ("animations", _PB, _LM)) + _gate("textures"))
CHECKS["P35"] = dict(harness="p07_parse.cpp", entries=_parse(("shapes", _PB, _LM), ("physics", _PB, _LM), ("bodies", _PB, _LM)) + _gate("physics"))

_AR = ["accepted", "rejected"]
def _val(n, b, r=_AR, **k): return entry("val_" + n, b, r, **k)
_VB = "every value of every field, index and offset; presence variants as for loading"
CHECKS["P14"] = dict(harness="p14_validate.cpp", entries=[
    _val("accessors", _VB + "; 5 component types, 7 accessor types, strided or targeted views"), _val("bounds", "7 accessor types x 8 component types x bounds of 1..17 integers or doubles"),
    _val("animations", "0..2 channels and samplers with every reference, count, path and interpolation; compressed views"), _val("views", _VB), _val("cameras", _VB), _val("lights", _VB), _val("materials", _VB),
    _val("material_ext", _VB + "; 15 extensions, declared, not declared, another one declared"), _val("meshes", _VB), _val("attributes", "13 attribute names x 7 types x 7 component types x every accessor index, with and without quantization and bounds"),
    _val("nodes", _VB + "; meshes with and without joints and weights"), _val("rotation", "every finite quaternion"), _val("node_extensions", _VB), _val("bodies", _VB), _val("scenes", _VB), _val("textures", _VB + "; 4 declared extensions"), _val("samplers", "every filter value"),
    _val("required", "0..2 used and required names out of 4"), _val("single_root", "every default scene, root index, number of scenes and nodes 0..2, every transform component"),
])
CHECKS["P12"] = dict(harness="p12_load.cpp", entries=[
    entry("asset_info", "every version text of 0..4 printable characters, 6 shapes of the asset member, with and without metadata, required or not", ["loaded", "unsupported", "missing", "optional"]),
    entry("required_extensions", "0..2 required extensions out of 32 known and 4 unknown names, every set of enabled extensions (32 symbolic bits)", ["loaded", "rejected"]),
    entry("extension_names", "every extension bit with every set of higher bits", ["named"]),
] + _gate("views", "meshes", "nodes", "materials", "textures", "physics"))
CHECKS["P13"] = dict(harness="p12_load.cpp", entries=[entry("categories", "every set of one, two, all but one, all but two categories, every preset; documents with all kinds of elements or half of them, both key orders", ["loaded", "nothing"])])
CHECKS["P28"] = dict(harness="p12_load.cpp", entries=[entry("parser_reuse", "every history of 3 (thorough 4) loads out of 9 documents (JSON, GLB, failing), parser moved in between or not, destroyed before the assets are examined", ["kept", "failed"], {"more": 1}, {"more": 2}),
    entry("parser_moves", "two parsers with 6 kinds of settings each (callbacks, user pointers, extensions), used before or not; move construction, move assignment either way, a swap; then one of 4 documents", ["loaded", "unsupported"])])
CHECKS["P31"] = dict(harness="p12_load.cpp", entries=[entry("extras", "17 kinds of elements x 1..3 elements x each with or without extras (every 64 bit value), callback set or not, both key orders", ["called", "silent"]),
    entry("write_extras", "17 kinds of elements x 3 elements x each with or without extras (every 64 bit value), written and loaded again", ["same"])])
_TB = "each field of a document with every field, replaced by each of 14 kinds of JSON values (null, booleans, numbers, texts, arrays, objects; every text of up to 3 characters, every number), then validated"
def _tot(n, r=("loaded", "rejected"), **k): return entry("total_" + n, _TB, r, **k)
CHECKS["P06"] = dict(harness="p12_load.cpp", entries=[_tot("accessors"), _tot("meshes"), _tot("nodes"), _tot("material"), _tot("material_extensions"), _tot("textures"), _tot("physics"), _tot("root")], time=150)
_KB = "each field of a document with every field, replaced by each of 14 kinds of JSON values (every text of up to 3 characters, every number); optional names, the MIME type of images and values of root extensions excepted"
CHECKS["P37"] = dict(harness="p12_load.cpp", entries=[entry("kinds_" + n, _KB, ["reported", "either"]) for n in ("accessors", "meshes", "nodes", "material", "material_extensions", "textures", "physics", "root")] + [entry("kinds_sources", "URIs of 8 other kinds (every number) in buffers, with or without a binary chunk or fallback, and images, with or without a buffer view", ["reported"])], time=150)

_WB = "every value of each field in turn with the others distinct constants; optional fields: none, all, only one, all but one"
_S = ["same"]
def _wr(n, b=_WB, r=_S, **k): return entry("write_" + n, b, r, **k)
CHECKS["P25"] = dict(harness="p25_export.cpp", entries=[_wr("accessors"), _wr("accessor_types", "8 component types x 7 accessor types with bounds"), _wr("views"), _wr("buffers"), _wr("meshes"), _wr("nodes"), _wr("node_extensions"), _wr("scenes"), _wr("cameras"), _wr("lights"), _wr("material"), _wr("material_extensions", _WB + "; 15 extensions alone and together"),
    _wr("textures"), _wr("images"), _wr("samplers"), _wr("animations"), _wr("shapes"), _wr("physics"), _wr("bodies"), _wr("mappings", "1..3 variants, two primitives with 0..3 mappings of which some are empty"),
    _wr("root", "all sets of none, one, two, all but one and all of 19 sections, full or bare elements, with extension lists, pretty printed or not"), _wr("again", "an export of 4 assets (two of which are refused) as text or binary, followed by another", ["wrote", "refused", "same"])], time=150)
CHECKS["P26"] = dict(harness="p26_write.cpp", entries=[
    entry("escape_any", "every text of 0..4 bytes (thorough 6)", ["escaped"], {"max": 4}, {"max": 6}),
    entry("pretty_any", "every sequence of 1..3 (thorough 4) tokens, strings of up to two characters with every escape", ["printed"], {"max": 3}, {"max": 4}),
    entry("write_texts", "27 texts of an asset, each 'a' followed by up to two characters (one: all of ASCII, two: all but control characters), pretty printed or not", ["same", "uri"]),
    entry("write_uri", "every path of up to 5 (thorough 6) characters out of 5, percent signs among them", ["same"], {"max": 5}, {"max": 6}),
], time=150)
CHECKS["P27"] = dict(harness="p26_write.cpp", entries=[
    entry("glb_write", "every first buffer of 1..9 bytes in 5 kinds of sources with up to 2 surplus bytes, up to one more buffer, all JSON lengths modulo 4", ["embedded", "plain"]),
    entry("glb_short", "every buffer of 4 bytes that claims more, 3 kinds of sources", ["refused"]),
    entry("write_validated", "every node reference in assets with 0..2 nodes, as text and binary, validation asked for or not", ["written", "refused"]),
])
_EB = "8 component types, every element type, every byte of the data"
CHECKS["P15"] = dict(harness="p15_access.cpp", entries=[
    entry("elem_layouts", _EB + "; 5 layouts of offsets and strides, up to 3 elements, every element index", ["read"]),
    entry("elem_sparse", _EB + "; sparse data with all three index types, base data or none, every index", ["read"]),
    entry("elem_sparse_far", "every 64-bit element index against up to 3 sparse indices of every value", ["read"]),
])
CHECKS["P16"] = dict(harness="p15_access.cpp", entries=[
    entry("bulk_iterate", "4 element types, 8 component types, layouts, sparse or missing data; index passed or not", ["done"]),
    entry("bulk_range", "the same through iterators: reading in order, twice, skipping, copies of iterators", ["done"]),
    entry("bulk_copy", "the same into packed and strided destinations, canary bytes around every element", ["done"]),
    entry("bulk_components", "the same, 4 destination component types", ["done"]),
    entry("bulk_types", "27 element types copied in bulk", ["done"]),
])
CHECKS["P17"] = dict(harness="p15_access.cpp", entries=[
    entry("conv_elements", "27 element types x 8 component types x normalized or not x every byte of the element", ["read"]),
    entry("conv_tables", "every component and accessor type value (16 bits)", ["checked"]),
    entry("conv_components", "every raw value, 8 source and 8 destination component types", ["read"]),
    entry("conv_quantize", "every float that is in range, 4 normalized integer types", ["stored"]),
])
CHECKS["P18"] = dict(harness="p18_types.cpp", entries=[
    entry("mesh_indices", "7 arrangements of meshes and primitives with and without indices and positions, 17 vertex counts around the limits of 8 and 16 bit indices, option set or not; every index of up to 300 vertices", ["generated", "missing"]),
    entry("mesh_indices_small", "every vertex count of 0..300", ["generated"]),
])
CHECKS["P19"] = dict(harness="p18_types.cpp", entries=[
    entry("crc_any", "every string of 0..64 bytes (thorough 256) at two alignments, table and SSE4.2 versions", ["hashed"], {"max": 64}, {"max": 256}),
    entry("crc_again", "every two contents of a buffer hashed one after the other", ["hashed"]),
    entry("bits_clz", "every 8, 16, 32 and 64 bit value", ["computed"]), entry("bits_popcount", "every 8, 16, 32 and 64 bit value", ["computed"]), entry("bits_bytes", "every 8, 16, 32 and 64 bit value", ["computed"]), entry("bits_abs", "every 8, 16, 32 and 64 bit value", ["computed"]),
    entry("align_any", "every 64-bit value, alignments 1..4096, every pair of 64-bit flag sets", ["computed"]),
    entry("starts_any", "every text of 0..4 bytes, every prefix of 0..3 bytes", ["computed"]),
])
CHECKS["P20"] = dict(harness="p18_types.cpp", entries=[
    entry("small_plain", "every history of 3 (thorough 4) of 14 operations with their sizes on two vectors (inline and heap), every value", ["done"], {"ops": 3}, {"ops": 4}),
    entry("small_tracked", "the same with elements that know where they were constructed, and equal or unequal allocators", ["done"], {"ops": 3}, {"ops": 4}),
    entry("small_construct", "every constructor with 0..4 elements", ["done"]),
])
CHECKS["P21"] = dict(harness="p18_types.cpp", entries=[
    entry("static_vectors", "two vectors of 0..3 elements made in 3 ways, every history of 2 (thorough 4) of 5 operations, 3 element types", ["done"], {"ops": 2}, {"ops": 4}),
    entry("optionals", "every history of 3 (thorough 5) of 15 operations, 5 value types, every value", ["done"], {"ops": 3}, {"ops": 5}),
    entry("optional_kinds", "which type Optional is", ["done"]),
])
CHECKS["P22"] = dict(harness="p18_types.cpp", entries=[
    entry("bounds_include", "every 0..2 (thorough 3) values included into accessors with none, one or both bounds, 1..4 components, both number types", ["bounded", "open"], {"max": 2}, {"max": 3}),
    entry("bounds_values", "two bounds arrays of both types with 1..3 values, every history of 2 (thorough 4) of 4 operations", ["done"], {"ops": 2}, {"ops": 4}),
])

REAL = dict(flags=["--real"])
CHECKS["P23"] = dict(harness="p23_math.cpp", entries=[
    entry("vec_construct", "every value of 12 vector types", ["construct", "resize", "convert"]),
    entry("vec_arith", "every value of 10 vector types, every operator", ["arith", "unary"], weight=3),
    entry("vec_clamp", "every value and bounds of floats and 32-bit integers", ["clamp"]),
    entry("vec_real", "all real components of 2, 3 and 4 component vectors", ["real", "normalized", "cross"], **REAL),
    entry("mat_shape", "every value of all 9 shapes of matrices", ["shape", "resized"]),
    entry("mat_mul", "all real matrices of 8 pairs of shapes, all real vectors", ["product"], **REAL),
    entry("mat_det", "all real 2x2, 3x3 and 4x4 matrices", ["det"], **REAL),
    entry("mat_inv", "all real invertible 2x2, 3x3 and 4x4 matrices", ["inverse"], **REAL),
    entry("mat_affine", "all real invertible affine matrices", ["affine"], **REAL),
    entry("mat_xform", "all real 4x4 matrices and vectors", ["xform"], **REAL),
    entry("quat_arith", "every value, every operator", ["quat"]),
    entry("quat_real", "all real quaternions, unit for rotations", ["normalized", "rotation"], **REAL),
    entry("quat_slerp", "all pairs of an axis quaternion and a unit quaternion in the plane of it and another axis, every factor in [0, 1]", ["near", "far"], **REAL),
])
CHECKS["P24"] = dict(harness="p23_math.cpp", entries=[
    entry("decompose", "42 rotations (quarter, third and half turns and others), every scale other than zero and every translation over the reals", ["recomposed"], weight=4, time=280, **REAL),
    entry("decompose_generic", "rotations with quaternions (1,2,2,4)/5 in every order and with every sign, every scale other than zero, every translation", ["recomposed"], weight=5, time=280, **REAL),
    entry("decompose_generic2", "the same with (1,1,3,5)/6 (thorough: and 4 others)", ["recomposed"], {}, {"rotations": 10}, weight=5, time=280, **REAL),
    entry("decompose_flat", "12 (thorough 42) rotations, one to three axes scaled by zero, every other scale", ["flat"], {"rotations": 2}, {"rotations": 4}, weight=4, time=280, **REAL),
    entry("node_decompose", "6 matrices with rotations and mirroring x 3 scales x every translation (bit precise), option set or not", ["kept", "decomposed"]),
])
CHECKS["P30"] = dict(harness="p23_math.cpp", entries=[
    entry("node_local", "all real transforms and base matrices", ["local"], **REAL),
    entry("scene_iterate", "every forest of up to 4 (thorough 5) nodes in two orders, with one root left out or not, symbolic transforms over the reals", ["iterated", "deep"], {"nodes": 4}, {"nodes": 5}, **REAL),
])
FS = ["file streams and std::filesystem are modelled on an in-memory file table (harness/fs/fstream, harness/runtime.cpp); the replay uses the real ones"]
CHECKS["P32"] = dict(harness="p32_files.cpp", fstream=True, assumptions=FS, entries=[
    entry("ext_buffer", "19 URIs, files of 0..3 (thorough 5) bytes of every value, every fault, 4 callback configurations, both options, every length", ["loaded", "mapped", "kept", "missing"], {}, {"n": 5}),
    entry("ext_image", "the same for images, 4 MIME types", ["loaded", "mapped", "kept", "missing"], {"n": 2}, {"n": 4}, weight=2),
    entry("ext_large", "buffers and images of 255, 256, 32768, 65535, 65536 and 65540 bytes, the first and last four of every value, loaded or mapped", ["loaded"]),
    entry("ext_many", "two buffers and two images over three files", ["loaded"]),
    entry("ext_directory", "existing, empty, missing base directory, a file; every combination of options; text and binary", ["invalid", "missing", "loaded"]),
])
CHECKS["P33"] = dict(harness="p32_files.cpp", fstream=True, assumptions=FS, entries=[
    entry("write_names", "14 x 14 names of two buffers or a buffer and an image, bytes of every value", ["written", "reloaded"], {"n": 1}, {"n": 2}, weight=2, time=200),
    entry("write_files", "up to two buffers and images, 3 kinds of sources, 4 targets, 4 folder configurations, 5 MIME types", ["written", "reloaded"], {"n": 1}, {"n": 2}, weight=3, time=200),
    entry("write_twice", "existing longer files, two exports in a row", ["written", "reloaded"]),
    entry("write_fail", "10 kinds of failures, text and binary", ["reported"]),
])
CHECKS["P34"] = dict(harness="p32_files.cpp", fstream=True, assumptions=FS, entries=[
    entry("file_buffer", "files of 0..4 (thorough 7) bytes of every value, every split, every fault", ["read", "reported"], {}, {"n": 8}),
    entry("file_stream", "files of 0..4 (thorough 7) bytes of every value, every split", ["read", "reported"], {}, {"n": 8}),
    entry("file_load", "text and binary documents with symbolic numbers and bytes, loaded twice through both sources", ["loaded"]),
])
CHECKS["P36"] = dict(harness="p36_misc.cpp", entries=[
    entry("attr_find", "lists of up to 3 (thorough 4) attributes in 4 places, names and keys of up to 2 characters of every value", ["found", "absent"], {}, {"n": 5}),
    entry("expected", "both states, every error code and value, moved, assigned, taken apart", ["value", "error"]),
    entry("span_parts", "3 element types, sizes 0..6, every part", ["element", "parts"]),
    entry("error_names", "all errors", ["named"]),
    entry("extension_names", "every pair of extensions, all of them, unknown bits", ["named"]),
    entry("mime_names", "all MIME types, in data URIs and buffer views", ["recognized"]),
])
# The library's own build options. Every entry keeps the bounds it has in the check of its property.
def configured(variant, pid, names):
    for e in CHECKS[pid]["entries"]:
        if e["name"] in names:
            yield dict(e, harness=CHECKS[pid]["harness"], variant=variant, id=e["name"] + "@" + variant, bounds="%s; built with %s" % (e["bounds"], CONFIGURED[variant]))
CONFIGURED = {"small": "FASTGLTF_USE_CUSTOM_SMALLVECTOR=1", "double": "FASTGLTF_USE_64BIT_FLOAT=1", "nopool": "FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=1",
              "all": "FASTGLTF_USE_CUSTOM_SMALLVECTOR=1, FASTGLTF_USE_64BIT_FLOAT=1 and FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=1"}
CHECKS["P38"] = dict(harness="p07_parse.cpp", entries=[
    *configured("all", "P07", ["parse_accessors", "parse_views", "parse_buffers"]),
    *configured("all", "P08", ["parse_meshes"]),
    *configured("all", "P09", ["parse_nodes", "parse_scenes", "parse_cameras", "parse_lights"]),
    *configured("all", "P10", ["parse_material", "parse_material_extensions"]),
    *configured("all", "P11", ["parse_textures", "parse_images", "parse_samplers", "parse_animations"]),
    *configured("all", "P35", ["parse_shapes", "parse_physics"]),
    *configured("all", "P28", ["parser_reuse"]),
    *configured("all", "P25", ["write_accessors", "write_meshes", "write_nodes", "write_cameras", "write_lights", "write_material", "write_textures", "write_animations", "write_scenes"]),
    *configured("all", "P14", ["val_accessors", "val_meshes", "val_scenes", "val_materials", "val_animations"]),
    *configured("small", "P08", ["parse_meshes"]),
    *configured("small", "P09", ["parse_nodes"]),
    *configured("small", "P11", ["parse_animations"]),
    *configured("small", "P28", ["parser_reuse", "parser_moves"]),
    *configured("small", "P25", ["write_meshes"]),
])

_PQ = "every value of every numeric, index and text field; each optional field alone, each left out, none, all, integer spellings of numbers, reversed key order, a bare element before or after a full one; each required field missing"
_PW = "the tests compare a few fields of sample files; a field mapped to the wrong member, a wrong default, a value carried over between elements or a missing error shows only for documents that use exactly that field"
def _fid(id, title, what, fns, extra=""):
    prop(id, title, "Loading a well-formed document yields, for each of its " + what + ", exactly what the document says: every field has the value written there (indices exactly, numbers as the nearest representable value, texts character by character), every field that is left out has the default or absence the specification prescribes, and elements neither lose, duplicate nor inherit anything, in whatever order their keys appear." + extra + " A document in which a required field is missing is rejected with an error.",
         ["inputs"], _PQ, _PW, [S, T], [("parsing", fns)], ["the loaded Asset", "error code"])
_fid("P07", "Accessors, buffer views and buffers are loaded as the document says", "accessors (component and element type, count, offsets, normalization, bounds, sparse data), buffer views (including meshopt compression) and buffers", "Parser::parseAccessors, parseBufferViews, parseBuffers")
_fid("P08", "Meshes and their primitives are loaded as the document says", "meshes (primitives, attributes, indices, material, topology, morph targets, weights, Draco compression, material variant mappings) and material variants", "Parser::parseMeshes, parsePrimitiveExtensions, parseExtensions")
_fid("P09", "Nodes, scenes, skins, cameras and lights are loaded as the document says", "nodes (hierarchy, TRS or matrix transform, weights, references, lights, instancing, visibility flags), scenes, skins, cameras and punctual lights", "Parser::parseNodes, parseScenes, parseSkins, parseCameras, parseLights")
_fid("P10", "Materials are loaded as the document says", "materials (metallic-roughness data, textures with their transforms, alpha and emission settings, and every material extension)", "Parser::parseMaterials, parseMaterialExtensions, parseTextureInfo")
_fid("P11", "Textures, images, samplers and animations are loaded as the document says", "textures (including basisu, dds and webp sources), images, samplers and animations", "Parser::parseTextures, parseImages, parseSamplers, parseAnimations")
_fid("P35", "Implicit shapes and rigid-body physics are loaded as the document says", "implicit shapes, physics materials, collision filters, joints with limits and drives, and rigid bodies of nodes (motion, collider, trigger, joint)", "Parser::parseShapes, parsePhysicsMaterials, parseCollisionFilters, parsePhysicsJoints, parsePhysicsRigidBody", " The maximum force of a joint drive is compared only where it is written down.")
prop("P14", "validate() accepts an asset exactly if the rules it enforces hold",
     "For every asset, validate() returns no error exactly if the rules below hold, and it never reads out of range while deciding. Every index of an element refers to an existing element, required extensions are among the used ones, and variants, meshopt compression, visibility flags and material extension data are backed by a used extension. Accessors, buffer views, buffers, mesh attributes, animations, cameras, lights, node rotations, skins, samplers, textures, skinned meshes and single-root scenes obey the specification's value rules (counts, alignment, bounds, strides, element and component types per attribute name, distinct animation targets, floating point scalar inputs, matching counts).",
     ["inputs"], "all values of all indices, offsets, counts, strides and factors of assets with one or two elements per kind, presence variants of every field, all attribute names x types x component types",
     "the tests call validate on valid sample files only; nothing shows that a rule fires, that it fires only when broken, or that bad indices are not followed", [S], [("validation", "fastgltf::validate")], ["return value", "memory accesses"])

prop("P06", "Loading and validating is total: no document makes it misbehave",
     "Loading any JSON document, whatever kinds of values its members have, either fails with an error or yields an asset. No document makes loading or validating it crash, throw, hang, or read or write memory out of bounds, use freed or uninitialised memory, or execute undefined arithmetic.",
     ["inputs"], "documents with every field the loader knows, each field in turn replaced by null, booleans, every number, texts of up to 3 arbitrary characters, empty or mixed arrays and objects; validation of whatever loads",
     "the test files are well formed; the fuzzer in the repository is not part of the tests and finds only what crashes", [S], [("parsing", "Parser::parse and the parse functions of each element kind"), ("validation", "validate")], ["error code", "every memory access", "exceptions"])
prop("P12", "Asset metadata and required extensions decide whether a document loads",
     "A document loads only if its asset member names major version 2 (or the caller waived the member) and every required extension is known and enabled, and each of these failures has its own error code. Version, copyright, generator, used and required extensions are reported exactly as written. Only extensions the caller enabled contribute to the asset; whatever data a document holds for the others is ignored.",
     ["inputs", "configurations"], "all version texts of up to 4 characters, 6 shapes of the asset member; up to two required extensions of 36 names under every set of enabled extensions; documents using all extensions under all sets that are empty, single or all but one",
     "the tests load valid files with all needed extensions enabled", [S, C], [("asset member and required extensions", "Parser::parse"), ("extension gates", "hasBit(config.extensions, ...) in the parse functions"), ("names", "extensionStrings, stringifyExtension")], ["error code", "the loaded Asset"])
prop("P13", "Exactly the requested categories and what they refer to are loaded",
     "Loading with a set of categories yields the same elements as a full load for every requested category and for every category these refer to directly or indirectly, and no elements of any other category. The asset reports exactly the categories it loaded.",
     ["inputs", "configurations"], "every set of one, two, all but one or all but two of the 13 categories and every preset; documents with elements of all kinds or of some, both key orders",
     "two tests look at one category set each", [S, T], [("closure", "Parser::fillCategories"), ("selection", "Parser::parse")], ["the loaded Asset", "Asset::availableCategories"])
prop("P28", "Loads are independent of each other and of the parser's lifetime",
     "What a parser returns for a document depends only on that document and the parser's settings, not on the documents it loaded before, whether those succeeded, failed half way or were binary containers, and not on the parser having been moved. Loaded assets stay unchanged while the parser loads other documents and after it is destroyed.",
     ["histories"], "all histories of 3 (thorough 4) loads out of 9 documents, the parser moved after the first load or not and destroyed before the assets are examined",
     "each test uses a fresh parser and examines the asset while the parser exists", [S, C], [("per-load state", "Parser::glbBuffer, options, directory, jsonParser"), ("memory resource", "Parser::parse, Asset::memoryResource")], ["error codes", "loaded assets"])
prop("P31", "The extras callback reports every element's extras exactly once",
     "While a document is loaded with an extras callback set, the callback is called exactly once for each element that has an extras object, in order, with that object, the kind of element, its index in the asset and the user pointer. It is not called for anything else, and when an asset is written the write callback is asked exactly once per element in the same way and what it returns becomes that element's extras.",
     ["inputs", "configurations"], "17 kinds of elements, 1..3 elements each with or without extras, every 64-bit value in it, extras before or after the other members; 3 elements of each kind written with every choice of extras",
     "one sample file with extras on nodes is loaded", [S], [("callbacks", "config.extrasCallback in the parse functions")], ["calls of the callback"])

prop("P25", "An asset written as glTF and loaded again is the same asset",
     "For every well-formed asset, writing it as glTF JSON and loading the text with all extensions enabled yields an equal asset: the same elements in the same order with every field, reference, extension and default value unchanged. This holds whatever set of sections, extensions and optional fields the asset uses, with or without pretty printing, and whatever the exporter wrote or refused before.",
     ["inputs", "histories"], "assets with two or three elements per kind: every value of each field in turn, each optional field alone, left out, none, all; all pairs of document sections; two exports in a row",
     "the tests export a few assets and compare single fields; separators and keys go wrong only for particular combinations of optional fields", [S, C], [("writers", "Exporter::write* for each element kind, writeExtensions, writeJson")], ["ExportResult::output loaded again"])
prop("P26", "Exported text is valid JSON for every name and string",
     "Whatever characters the texts of an asset contain (names, attribute names, URIs, metadata, variant and collision system names, extension names), the exported JSON parses and yields exactly these texts. escapeString turns every text into the inside of a JSON string that denotes it, and prettyPrintJson adds white space between tokens and changes nothing else.",
     ["inputs"], "each of 27 texts with every one or two further characters; all texts of up to 4 (thorough 6) bytes for escaping; all sequences of up to 3 (thorough 4) tokens for pretty printing",
     "one example each for escaping and pretty printing is tested", [S], [("escaping", "escapeString, its uses in the write functions"), ("pretty printing", "prettyPrintJson")], ["ExportResult::output", "return value of escapeString"])
prop("P27", "Binary export writes a well-formed GLB with the first buffer's bytes",
     "A written binary glTF has a correct header and chunk layout and, if the first buffer holds its data in memory, exactly its bytes as zero-padded binary chunk, and it loads again as the same asset with the same bytes; other buffers keep their URI or are listed with the path of the file to save. Buffers with fewer bytes than their length, and assets that do not validate when validation was asked for, are refused without reading out of bounds.",
     ["inputs"], "every first buffer of 1..9 bytes (5 kinds of sources, surplus bytes, a second buffer), all lengths of JSON modulo 4, every claimed length beyond the data",
     "one asset is exported as GLB in the tests and its chunk magic compared", [S], [("container", "Exporter::writeGltfBinary, writeBinaryHeader, writeBinaryChunk"), ("paths", "Exporter::writeBuffers, getBufferFilePath")], ["ExportResult::output, bufferPaths", "every memory access"])

prop("P15", "An accessor element is read from exactly its place in the data",
     "getAccessorElement yields, for every accessor and index, the element the specification says: read at the offsets of the accessor and its buffer view with the view's stride (or tightly packed), with matrix columns aligned to four bytes, from whatever kind of source the buffer uses or through the caller's buffer adapter. Sparse accessors yield the replacing value exactly for the indices they list, with any index component type, and elements without data are zero.",
     ["inputs"], "every byte of the data; accessors of 3 or 4 elements, 6 layouts of offsets and strides, all sets of sparse indices below 4, up to 3 sparse indices of every value against every element index",
     "the tests read a few sample accessors; a wrong offset, stride or search shows only for particular layouts", [TO], [("element access", "getAccessorElement, internal::getAccessorElementAt, internal::findSparseIndex"), ("buffers", "DefaultBufferDataAdapter")], ["returned element", "every memory access"])
prop("P16", "Iterating and bulk copying yield the same elements as reading them one by one",
     "iterateAccessor, iterateAccessorWithIndex, the accessor range and its iterators, and copyFromAccessor pass every element exactly once, in order, with the value getAccessorElement gives, sparse, normalized and missing data included; copyComponentsFromAccessor writes the components of every element one after the other in the destination type. Elements and components land at their place in the destination, and nothing else is written.",
     ["inputs", "histories"], "every byte of the data; accessors of 4 elements, 4 element types (copying: 37), 8 component types, 2 layouts, all sparse masks; iterators advanced, copied and read more than once",
     "bulk tools have fast paths (memcpy, iterators that search sparse data incrementally) the tests use for one layout each", [TO], [("iteration", "IterableAccessor, AccessorIterator, iterateAccessor, iterateAccessorWithIndex"), ("copying", "copyFromAccessor, copyComponentsFromAccessor")], ["elements passed", "destination bytes", "every memory access"])
prop("P17", "Components are converted to the destination type as the specification says",
     "Reading a component of any component type as any destination type yields its value: integers exactly, floating point data converted to the nearest value, normalized integers scaled to [-1, 1] or [0, 1] as f = c / max, not below -1; floating point values stored as normalized integers give the nearest step. The tables of accessor and component types (names, codes, sizes, numbers of components) agree with the specification, for every element type the library offers.",
     ["inputs"], "every value of every byte of an element: 37 element types, 8 component types, normalized or not; every value that fits the destination type",
     "the tests convert a handful of values", [TO, T], [("conversion", "internal::convertComponent, internal::getAccessorComponentAt, internal::convertAccessorElement"), ("tables", "getNumComponents, getComponentByteSize, getElementByteSize, getComponentType, getAccessorType, ElementTraits")], ["returned element"])
prop("P18", "Generated mesh indices draw the same vertices in the same order",
     "With Options::GenerateMeshIndices, every primitive without indices gets an index accessor of its own whose data, read through its buffer view and buffer, is 0, 1, ... up to the number of its positions, in a component type that holds every index and never the primitive restart value. Primitives with indices, attributes and all other elements of the document stay as they are, primitives without positions are an error, and nothing is generated when the option is not set.",
     ["inputs", "configurations"], "every vertex count of 0..300 and 17 counts around 2^8 and 2^16; 7 arrangements of up to three primitives in two meshes",
     "one small mesh is loaded with the option in the tests; width limits and several meshes are not", [S], [("generation", "Parser::generateMeshIndices, writeIndices")], ["accessors, buffer views, buffers, indicesAccessor of the loaded asset"])
prop("P19", "Hashing and bit utilities compute what they are defined to compute",
     "All versions of crc32c (table and SSE4.2, texts and byte ranges) equal the reflected CRC-32C polynomial division of the bytes, at any length and alignment, and follow the content. clz, popcount, byteswap, uabs, alignUp, alignDown, min, max, startsWith and the flag operators and hasBit agree with their mathematical definitions for every value.",
     ["inputs"], "every byte string of up to 64 (thorough 256) bytes; every 8, 16, 32 and 64 bit value; every alignment up to 4096",
     "the tests compare a few sample strings and values; a wrong table entry or remainder step shows for some inputs only", [S, U], [("hashing", "crc32c, sse_crc32c, crcHashTable"), ("bit utilities", "util.hpp: clz, popcount, byteswap, uabs, alignUp, alignDown, hasBit, startsWith")], ["returned values", "every memory access"])
prop("P20", "SmallVector behaves like std::vector in every history of operations",
     "After any sequence of emplace_back, resize, reserve, shrink_to_fit, clear, assign, copying and moving (construction and assignment), a SmallVector holds exactly the elements a std::vector would, in order, whether it uses its inline storage or the heap; a moved-from vector is empty and usable. Every element is constructed and destroyed exactly once, elements are only used while they exist, and all memory returns to the allocator it came from with its size.",
     ["histories", "inputs"], "every history of 3 (thorough 4) operations out of 14 with sizes 0..6 on two vectors with inline capacity 2, trivial and tracked elements, equal and unequal allocators, every element value",
     "the tests run one short sequence per operation and cannot see leaks, wrong deallocations or uses of dead elements", [T], [("container", "SmallVector: reserve, resize, clear, shrink_to_fit, copy and move operations")], ["size, capacity, elements", "constructor and destructor calls", "allocations"])
prop("P21", "StaticVector and Optional keep exactly the values they are given",
     "A StaticVector holds the elements it was constructed with (by size and value, fromVector, copy or move), compares equal exactly to vectors with equal elements, and is empty when moved from. fastgltf::Optional behaves like std::optional for every value except the documented flag value: assignment, reset, emplace, swap, copying, moving, value_or, and_then, transform, or_else, comparison and conversion to std::optional, for every type the library has a flag value for.",
     ["histories", "inputs"], "every history of 2 (thorough 4) operations on StaticVectors of 0..3 elements of 3 types; every history of 3 (thorough 5) operations on Optionals of 5 types; every value",
     "the tests check the empty state and one value", [T], [("containers", "StaticVector, OptionalWithFlagValue, OptionalFlagValue")], ["elements", "has_value, value"])
prop("P22", "Accessor bounds are the running minimum and maximum of what was included",
     "Accessor::updateBoundsToInclude makes min and max, per component, the smallest and largest of all values included so far and of the bounds that existed before, for integer and floating point scalars and vectors. AccessorBoundsArray keeps its type, size and values through moves and assignments between bounds of different types.",
     ["inputs", "histories"], "every 2 (thorough 3) values of 1..4 components, 64-bit integers and finite doubles, starting with none, one or both bounds; every history of 2 (thorough 4) moves",
     "the tests include three fixed values", [T], [("bounds", "Accessor::updateBoundsToInclude, AccessorBoundsArray")], ["Accessor::min, Accessor::max"])
prop("P23", "Vector, matrix and quaternion arithmetic is the textbook arithmetic",
     "Vectors, matrices and quaternions hold the values they are made from in the documented order (matrices column by column, of any shape, truncated or completed with zeros or the identity), compare equal exactly when all values are, and their operators work component by component; compound forms change the object and return it. Dot and cross products, length, normalize, lerp and clamp, products of matrices and vectors of all shapes, transposes, determinants, inverses (of every invertible matrix, and of affine ones), translate, scale and rotate, quaternion rotation matrices and slerp yield the mathematically defined result, up to rounding.",
     ["inputs"], "every value of the component types for constructors, operators and comparisons; all real numbers (rounding left out) for products, determinants, inverses and rotations; slerp between axis quaternions and unit quaternions in a plane with them",
     "the tests check one product, one determinant and square matrices with small numbers", [M], [("vectors", "math::vec, dot, cross, length, normalize, lerp, clamp"), ("matrices", "math::mat, transpose, determinant, inverse, affineInverse, translate, scale, rotate"), ("quaternions", "math::quat, asMatrix, slerp")], ["returned values"])
prop("P24", "Decomposing a transform yields parts that recompose it",
     "For every matrix made of a translation, a rotation and a scale, mirroring and zero scales included, decomposeTransformMatrix yields a translation, a unit quaternion and a scale whose composition is that matrix again, up to rounding. With Options::DecomposeNodeMatrices, nodes given as matrices are loaded as these parts; without, the matrix is kept as written.",
     ["inputs"], "every real scale and translation with 138 (thorough 500) rotations by quarter, third and half turns and other rational quaternions; 18 matrices in documents with every translation",
     "the tests decompose two matrices, neither mirroring, by half a turn nor flat", [M, S], [("decomposition", "math::decomposeTransformMatrix"), ("option", "Parser::parseNodes")], ["scale, rotation, translation"])
prop("P30", "World transforms follow the node hierarchy",
     "A node's local transform is its matrix, or translation times rotation times scale; its transform under a base is the base times that. iterateSceneNodes visits exactly the nodes below the roots of the scene, parents before children and children in order, each with the product of the initial matrix and the local transforms from its root down to it.",
     ["inputs"], "all real transforms and base matrices; every forest of up to 4 (thorough 5) nodes in two orders, with any root left out of the scene",
     "no test iterates a hierarchy with more than one path or checks the matrices", [TO], [("transforms", "getLocalTransformMatrix, getTransformMatrix"), ("iteration", "iterateSceneNodes")], ["callback arguments", "returned matrices"])
prop("P32", "External files are loaded exactly or reported",
     "With LoadExternalBuffers or LoadExternalImages, a buffer or image whose URI is a local path holds exactly the bytes of the file it names, percent-encoded characters decoded, below the base directory; the caller's map callback is asked once for exactly that size, and what it maps is unmapped. A file that is missing, cannot be opened or ends early is an error, as is a base directory that does not exist. Without the option, and for remote URIs, the URI is kept and nothing is read.",
     ["inputs", "faults"], "19 URIs, files of 1 to 3 bytes of every value, missing files and directories in their place, failure to open, read errors and early ends after every byte, four callback configurations, every combination of both options; two buffers and two images over three files",
     "the tests load sample assets from intact files", [S, I], [("loading", "Parser::loadFileFromUri"), ("options", "Parser::parseBuffers, parseImages, loadGltfJson, loadGltfBinary")], ["the loaded Asset", "error codes", "calls of the map and unmap callbacks"])
prop("P33", "Exporting to files writes every resource to its own file or reports an error",
     "FileExporter writes the target and exactly one file for every buffer and image held in memory, each with exactly its bytes, whatever the names of the resources and the configured folders are; loading the target from its directory gives the same names, lengths and bytes again. Existing files are replaced, consecutive exports are independent, and a file that cannot be written is reported.",
     ["inputs", "faults", "histories"], "14 names for each of two resources, up to two buffers and two images of 1 or 2 bytes of every value and every kind of source, 4 target directories, 4 folder configurations, 5 MIME types; 10 kinds of failures; two exports in a row",
     "the tests write sample assets with distinct plain names to a writable directory", [S, C], [("files", "FileExporter::writeGltfJson, writeGltfBinary, writeFile, writeFiles"), ("names", "Exporter::getBufferFilePath, getImageFilePath, normalizeAndFormatPath")], ["contents of the written files", "error codes"])
prop("P34", "glTF data is read from files completely or not at all",
     "GltfDataBuffer::FromPath and GltfFileStream hand out exactly the bytes of the file, in any split and again after a reset, with readable padding; a file that is missing or is not a file, cannot be opened, or cannot be read completely into a GltfDataBuffer is reported, without an exception. A document, text or binary, loaded through either is the document in the file, and the same source can be loaded repeatedly.",
     ["inputs", "faults"], "files of 0 to 4 bytes of every value, every two-part split, missing files and directories, failure to open, read errors and early ends after every byte; documents with symbolic numbers and binary data",
     "the tests read intact files only", [I, S], [("sources", "GltfDataBuffer, GltfFileStream"), ("loading", "determineGltfFileType, Parser::loadGltf")], ["bytes handed out", "error codes", "the loaded Asset"])
prop("P36", "Lookups by name, results and views give what they name",
     "findAttribute, findTargetAttribute and findInstancingAttribute return the first attribute with exactly the given name, or the end. Expected holds either the error or the value it was made from, and every way of access agrees; span and its parts cover exactly the elements they name. Every error has its name and message, every extension bit and MIME type its own name, and stringifying a set of bits lists exactly the names of the bits in it.",
     ["inputs"], "lists of up to 3 (thorough 4) attributes with names of up to 2 characters of every value; every error code and value; spans of up to 6 elements and all their parts; all errors, pairs of extensions and MIME types",
     "the tests look up attributes that exist and print few names", [T, C], [("lookups", "Primitive::findAttribute, findTargetAttribute, DracoCompressedPrimitive::findAttribute, Node::findInstancingAttribute"), ("results", "Expected"), ("views", "span"), ("names", "getErrorName, getErrorMessage, stringifyExtension, stringifyExtensionBits, getMimeTypeString")], ["returned values and iterators"])

prop("P37", "Values of the wrong JSON kind are reported, not ignored",
     "Whenever a member of a document that the loader reads has another JSON kind than the specification prescribes for it (a text or a negative number for an index, an object for a number, a number for a flag, an array of the wrong length for a vector, anything but an array or object where one is expected, an unknown text for an enumeration), loading fails with an error. The element is neither loaded without that member nor with a default or leftover value. Optional names, the MIME type of images and the values of extensions at the root are excepted.",
     ["inputs"], "documents with every field the loader knows, each field in turn replaced by null, booleans, every number, texts of up to 3 arbitrary characters, empty, short, long or mixed arrays and objects",
     "the test files are well formed; a value dropped silently shows only for a malformed document that has it", [S], [("reading of members", "the parse functions of each element kind, parseTextureInfo, getJsonArray")], ["error code"])

prop("P38", "The build options of the library change representations, not meaning",
     "Whichever build options the library is compiled with - FASTGLTF_USE_CUSTOM_SMALLVECTOR, FASTGLTF_USE_64BIT_FLOAT, FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL - a document loads as the specification says, an asset that is written loads as the same asset, exactly the assets that follow the specification validate, and one parser can be used for any number of documents. With 64-bit numbers every number, also a default and a written one, has the full precision of a double.",
     ["inputs"], "the bounds of the checks of parsing, writing and validation, with all three options changed at once, and with the custom small vector alone",
     "the tests are built with one configuration", [T, C], [("numbers", "num, defaults of materials and physics materials, Exporter"), ("containers", "SmallVector, MaybeSmallVector, pmr aliases"), ("memory", "ChunkMemoryResource, Asset::memoryResource")], ["members of the loaded asset, error code"])

import json
F=[("P01","a31c20b","the SSE4 and AVX2 decoders ran past the end of the output for sizes not a multiple of the vector width"),
("P02","2c20a69","data URIs were decoded although the base64 text was truncated or not base64 at all"),
("P03","b404648","URI texts were split wrongly, views read out of bounds for short texts, percent decoding left stale text"),
("P04","b404648","copied and moved URIs pointed into the text of the source object"),
("P05","07efc34","GLB chunk sizes were not checked against the data; the binary chunk of a previously parsed file was reused"),
("P29","5d11f66","mapped files whose size is a multiple of the page size had no readable padding; a failed mapping leaked the descriptor"),
("P21","8d73a68","Optional<float> took any NaN payload for a missing value; swap left the source engaged"),
("P07","4155df6","accessor type names were compared by prefix only"),
("P35","4155df6","enum names of the physics extensions were compared by prefix only"),
("P06","4ad0494","an empty asset version read out of bounds"),
("P07","07d94b4","component types above 16 bits were truncated; double bounds outside the int64 range were converted with undefined behaviour"),
("P08","07d94b4","primitive modes above 6 were accepted"),
("P10","77b1fa4","the texture coordinate index of one texture info was carried over to the next"),
("P09","45e642d","node weights were never read; errors of missing lights and matrices were mixed up"),
("P09","65cf391","scenes without nodes were dropped"),
("P10","af74587","malformed material extensions were ignored instead of reported"),
("P09","72ed2d5","light types were compared by prefix only"),
("P08","6e69ceb","material variant mappings without variants were accepted; mappings depended on the order of the root keys"),
("P09","9b38faf","node visibility, selectability and hoverability defaulted to false when the extension object left them out"),
("P35","4f46cc8","box shapes without a size were rejected"),
("P13","55eaf2c","categories that were not requested were reported as available"),
("P18","1fce8bd","generateMeshIndices produced wrong or out-of-bounds index data"),
("P35","38c7324","inertiaOrientation was read from the wrong key"),
("P14","b7d5a3a","validate() followed accessor, sampler and buffer view indices before checking them"),
("P14","a481b7d","validate() did not reject references of several kinds to elements that do not exist"),
("P14","df0c0ca","validate() did not check the alignment of accessors that start at offset 0"),
("P25","a286e2d","the cone angles of spot lights were written as invalid JSON"),
("P25","68c5223","the exporter left out the comma before a texture's name"),
("P25","9eca87b","images with a URI lost their mime type on export"),
("P25","e904fb1","collision filters were written with a trailing comma"),
("P25","d854a41","rigid bodies were written as invalid JSON"),
("P25","3e3316e","MSFT_packing textures were written without commas"),
("P25","aad6cc1","variant mappings of meshes with fewer mappings than variants were read out of bounds on export"),
("P25","c6639f8","an error of an earlier export was reported by every later one"),
("P27","f88cce4","writeGltfBinary ignored ExportOptions::ValidateAsset"),
("P27","2a9e615","writeGltfBinary read past the end of buffers with fewer bytes than their byteLength"),
("P26","f25ee24","prettyPrintJson lost track of strings that end with an escaped backslash"),
("P26","efee737","escapeString left control characters unescaped"),
("P26","76bacba","attribute, variant, system and extension names were written unescaped"),
("P31","83bf6fb","the extras of collision filters were asked for with another category"),
('P17','27762ea','element traits of signed 32-bit vectors named the unsigned component type'),
('P15','aa170ee','sparse lookups truncated the searched index to the index component type'),
('P15','012291d','matrix and quaternion elements without data were identities instead of zero'),
('P16','6585155','copyFromAccessor zero-filled a fraction of accessors without data'),
('P16','8c578e4','copyFromAccessor copied normalized integers to floats without scaling'),
('P16','94935b3','accessor iterators read missing data, and lost sparse values unless read once in order'),
('P16','d4b1f0a','copyComponentsFromAccessor placed components by the source size and read missing data'),
('P21','5840980','StaticVector::fromVector copied size() bytes instead of size() elements'),
('P21','2efbe5b','a moved-from StaticVector kept its size without data'),
('P21','fa804d2','StaticVector compared object representations instead of elements'),
('P21','f11fdfd','OptionalWithFlagValue::or_else did not compile'),
('P21','e5abedf','converting an expiring OptionalWithFlagValue to std::optional returned a dangling reference'),
('P20','a4b2154','SmallVector::clear kept the heap capacity for the inline storage, and leaked empty heap storage'),
('P20','af4326a','SmallVector::reserve leaked the allocation of an empty vector'),
('P20','a037c99','SmallVector::shrink_to_fit assigned to uninitialised storage and leaked the heap allocation'),
('P20','b80dc5b','moving SmallVectors leaked, left null data with capacity, kept old elements, and mixed allocators'),
('P20','c241316','SmallVector reverse iterators did not compile'),
('P22','d69fe13','move-assigning accessor bounds of another type destroyed them as the wrong type'),
('P22','2922302','updateBoundsToInclude started at zero instead of the first value'),
('P19','87a2c2e','byteswap did not compile'),
('P19','3c0ad8c','CRC functions were declared const although they read memory'),
('P23','afeb4e5','dividing a quaternion by a number multiplied it, so normalize and slerp were wrong'),
('P23','e2964e4','non-square matrices were filled in the wrong places and out of bounds'),
('P23','c124acd','comparing non-square matrices skipped columns or read out of bounds'),
('P23','491e214','a non-square matrix times a vector had the wrong size'),
('P23','c8809e0','a vec made from a shorter initializer list had uninitialised components'),
('P23','d08f4ff','compound operators returned a copy, prefix operators nothing'),
('P24','bd2d2fe','decomposing a mirroring matrix gave a rotation that is none'),
('P24','4b0b66d','decomposing a rotation by half a turn lost the relative signs of the axis'),
('P24','a2f2403','decomposing a matrix with a scale of zero gave NaN'),
('P34','a2d6d77','GltfDataBuffer treated files that cannot be read completely as zeros'),
('P34','87fd75f','GltfFileStream threw for missing files'),
('P32','9971be2','external files that cannot be opened or read completely were loaded as zeros'),
('P32','2a6088c','percent-encoded ?, #, : or % in a file name led to another file'),
('P33','45c6eac','FileExporter could not write to the current directory'),
('P33','9790c9f','FileExporter did not report a target file that cannot be written'),
('P33','5b3632c','URIs of written files did not percent-encode reserved characters, so that loading found another file'),
('P33','2c4c7c6','resources with equal names were written to the same file'),
('P26','c9379fb','exported URIs lost encoded percent signs'),
('P37','30c4e60','members of texture references that have the wrong kind were ignored'),
('P37','192b080','accessors whose buffer view or sparse member has the wrong kind loaded without them'),
('P37','cdb1254','compressed buffer views whose extension is not an object loaded as plain ones'),
('P37','af6b4aa','lights whose intensity or range is not a number got the default'),
('P37','3c5b152','accessor bounds that are not arrays were ignored'),
('P37','ffc93fa','material members of the wrong kind and colours with missing components were ignored'),
('P37','2a9b14f','animation samplers whose interpolation is not a string were linear'),
('P37','c7dc1f5','morph targets that are not an array were ignored'),
('P37','01fafa2','nodes whose matrix or extensions have the wrong kind loaded without them'),
('P37','d6d8b57','physics joints whose limits are not an array loaded without them'),
('P37','f335147','a buffer whose uri is not a text got the binary chunk or became a fallback, an image its buffer view'),
('P26','3e6ed7b','the configuration without memory pool did not compile after the names of compressed attributes are escaped')]
F+=[('P38','7336248','with 64-bit numbers, the default friction and iridescence were rounded to single precision'),
('P37','489f6f3','base colours and texture transforms with too many components were loaded')]
json.dump([dict(id="fix-%s-%s"%(c,p.lower()),status="fixed",property=p,commit=c,what=w,line="fixed: property=%s %s %s"%(p,c,w)) for p,c,w in F],open('/verif/known_findings.json','w'),indent=1)

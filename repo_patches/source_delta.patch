From a31c20b4cd76b2f2e4d24fe81aa09d8207561d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 01/90] fix: keep the SSE4/AVX2 base64 decoders from writing
 past the output

The aligned size was computed from the size of the decoded block instead of the
size of the encoded block, so that the last full-width store could write past the
end of the output, e.g. for 36 encoded characters with SSE4.
---
 src/base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fa50c46..779c68f 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -145,7 +145,7 @@ namespace fastgltf::base64 {
     // allocate any new memory to hold the encoded data and let the fallback decoder decode the
     // remaining data.
     const auto encodedSize = encoded.size();
-    const auto alignedSize = encodedSize - (encodedSize % dataOutputSize);
+    const auto alignedSize = encodedSize - (encodedSize % dataSetSize);
     auto* out = output;
 
     // _mm256_setr_epi8 accepts only 'char' but 0xff would overflow a signed char, which makes some compilers unhappy.
@@ -226,7 +226,7 @@ namespace fastgltf::base64 {
     // allocate any new memory to hold the encoded data and let the fallback decoder decode the
     // remaining data.
 	const auto encodedSize = encoded.size();
-	const auto alignedSize = encodedSize - (encodedSize % dataOutputSize);
+	const auto alignedSize = encodedSize - (encodedSize % dataSetSize);
     auto* out = output;
 
     // _mm_setr_epi8 accepts only 'char' but 0xff would overflow a signed char, which makes some compilers unhappy.
-- 
2.43.0


From 2c20a6932b27e388f987b6de1257b2e8aeca1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 02/90] fix: reject data URIs whose payload is not whole base64

A payload that was shorter than four characters or not a multiple of four made the
decoders read and write out of bounds, characters above 0x7f indexed past the lookup
table, and a ';base64' after the ',' was taken as the encoding.
---
 src/base64.cpp   | 2 +-
 src/fastgltf.cpp | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 779c68f..3e0ade0 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -364,7 +364,7 @@ fg::StaticVector<std::uint8_t> fg::base64::neon_decode(std::string_view encoded)
 
 // clang-format off
 // ASCII value -> base64 value LUT
-static constexpr std::array<std::uint8_t, 128> base64lut = {
+static constexpr std::array<std::uint8_t, 256> base64lut = {
     0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,62,0,0,0,63,
     52, 53, 54, 55, 56, 57, 58, 59, 60, 61,
     0,0,0,0,0,0,0,
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4591179..22a8bf7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -675,12 +675,18 @@ fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const
     auto mime = path.substr(0, mimeEnd);
 
     auto encodingEnd = path.find(',');
+    if (encodingEnd == std::string_view::npos || mimeEnd > encodingEnd) {
+		return Error::InvalidURI;
+    }
     auto encoding = path.substr(mimeEnd + 1, encodingEnd - mimeEnd - 1);
     if (encoding != "base64") {
 		return Error::InvalidURI;
     }
 
     auto encodedData = path.substr(encodingEnd + 1);
+    if (encodedData.size() < 4 || encodedData.size() % 4 != 0) {
+		return Error::InvalidURI;
+    }
     if (config.mapCallback != nullptr) {
         // If a map callback is specified, we use a pointer to memory specified by it.
         auto padding = base64::getPadding(encodedData);
-- 
2.43.0


From b404648c997d8d1c113beb9464e93126faedd9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 03/90] fix: parse URIs of any shape and keep their views
 consistent

Authorities without a path threw from a noexcept function, a host without a port
lost its first character, colons in the path were taken for a port or a scheme and
a '?' in the fragment for a query. Assigning a URI kept components and validity of
the previous value, and a '%' at the end made percent decoding read out of bounds.
---
 src/fastgltf.cpp | 85 ++++++++++++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 35 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 22a8bf7..e736e3e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -410,6 +410,7 @@ fg::URIView& fg::URIView::operator=(const URIView& other) {
 	_port = other._port;
 	_query = other._query;
 	_fragment = other._fragment;
+	_valid = other._valid;
 	return *this;
 }
 
@@ -420,14 +421,18 @@ fg::URIView& fg::URIView::operator=(std::string_view other) {
 }
 
 void fg::URIView::parse() {
+	_scheme = _path = _userinfo = _host = _port = _query = _fragment = {};
+	_valid = true;
+
 	if (view.empty()) {
 		_valid = false;
 		return;
 	}
 
 	std::size_t idx = 0;
-	auto firstColon = view.find(':');
-	if (firstColon != std::string::npos) {
+	// A colon after any of the other delimiters is not the end of a scheme.
+	auto firstColon = view.find_first_of(":/?#");
+	if (firstColon != std::string::npos && view[firstColon] == ':') {
 		// URI has a scheme.
 		if (firstColon == 0) {
 			// Empty scheme is invalid
@@ -441,38 +446,38 @@ void fg::URIView::parse() {
 	if (startsWith(view.substr(idx), "//")) {
 		// URI has an authority part.
 		idx += 2;
-		auto nextSlash = view.find('/', idx);
-		auto userInfo = view.find('@', idx);
-		if (userInfo != std::string::npos && userInfo < nextSlash) {
-			_userinfo = view.substr(idx, userInfo - idx);
-			idx += _userinfo.size() + 1;
+		auto authorityEnd = view.find_first_of("/?#", idx);
+		if (authorityEnd == std::string_view::npos) {
+			authorityEnd = view.size();
+		}
+		auto authority = view.substr(idx, authorityEnd - idx);
+		auto userInfo = authority.find('@');
+		if (userInfo != std::string_view::npos) {
+			_userinfo = authority.substr(0, userInfo);
+			authority.remove_prefix(userInfo + 1);
 		}
 
-		auto hostEnd = nextSlash - 1;
 		std::size_t portColon;
-		if (view[idx] == '[') {
-			hostEnd = view.find(']', idx);
-			if (hostEnd == std::string::npos) {
+		if (startsWith(authority, "[")) {
+			auto hostEnd = authority.find(']');
+			if (hostEnd == std::string_view::npos) {
 				_valid = false;
 				return;
 			}
 			// IPv6 addresses are made up of colons, so we need to search after its address.
-			// This will just be hostEnd + 1 or std::string::npos.
-			portColon = view.find(':', hostEnd);
+			_host = authority.substr(1, hostEnd - 1);
+			portColon = authority.find(':', hostEnd);
 		} else {
-			portColon = view.find(':', idx);
+			portColon = authority.find(':');
+			_host = authority.substr(0, portColon);
 		}
 
-		if (portColon != std::string::npos) {
-			_host = view.substr(idx, portColon - idx);
-			++portColon; // We don't want to include the colon in the port string.
-			_port = view.substr(portColon, nextSlash - portColon);
-		} else {
-			++idx;
-			_host = view.substr(idx, hostEnd - idx);
+		if (portColon != std::string_view::npos) {
+			// We don't want to include the colon in the port string.
+			_port = authority.substr(portColon + 1);
 		}
 
-		idx = nextSlash; // Path includes this slash
+		idx = authorityEnd; // Path includes the slash, if there is any.
 	}
 
 	if (_scheme == "data") {
@@ -482,8 +487,8 @@ void fg::URIView::parse() {
 		_path = view.substr(idx);
 	} else {
 		// Parse the path.
-		auto questionIdx = view.find('?', idx);
 		auto hashIdx = view.find('#', idx);
+		auto questionIdx = view.substr(0, hashIdx).find('?', idx);
 		if (questionIdx != std::string::npos) {
 			_path = view.substr(idx, questionIdx - idx);
 
@@ -599,10 +604,6 @@ fg::URI& fg::URI::operator=(URI&& other) noexcept {
 	auto* oldData = other.uri.data();
 	uri = std::move(other.uri);
 
-	// Invalidate the previous URI's view.
-	view._valid = other.view._valid;
-	other.view._valid = false;
-
 	if (uri.data() != oldData) {
 		// Allocation changed, we need to readjust views
 		readjustViews(other.view);
@@ -610,6 +611,10 @@ fg::URI& fg::URI::operator=(URI&& other) noexcept {
 		// No reallocation happened, we can safely copy the view.
 		view = other.view;
 	}
+
+	// Invalidate the previous URI's view.
+	other.view = URIView();
+	other.view._valid = false;
 	return *this;
 }
 
@@ -618,14 +623,19 @@ fg::URI::operator fg::URIView() const noexcept {
 }
 
 void fg::URI::readjustViews(const URIView& other) {
-	if (!other._scheme.empty())   { view._scheme     = std::string_view(uri.data() + (other._scheme.data()     - other.view.data()), other._scheme.size()); }
-	if (!other._path.empty())     { view._path       = std::string_view(uri.data() + (other._path.data()       - other.view.data()), other._path.size()); }
-	if (!other._userinfo.empty()) { view._userinfo   = std::string_view(uri.data() + (other._userinfo.data()   - other.view.data()), other._userinfo.size()); }
-	if (!other._host.empty())     { view._host       = std::string_view(uri.data() + (other._host.data()       - other.view.data()), other._host.size()); }
-	if (!other._port.empty())     { view._port       = std::string_view(uri.data() + (other._port.data()       - other.view.data()), other._port.size()); }
-	if (!other._query.empty())    { view._query      = std::string_view(uri.data() + (other._query.data()      - other.view.data()), other._query.size()); }
-	if (!other._fragment.empty()) { view._fragment   = std::string_view(uri.data() + (other._fragment.data()   - other.view.data()), other._fragment.size()); }
-
+	const auto readjust = [&](const std::string_view component) {
+		if (component.empty())
+			return std::string_view {};
+		return std::string_view(uri.data() + (component.data() - other.view.data()), component.size());
+	};
+	view._scheme   = readjust(other._scheme);
+	view._path     = readjust(other._path);
+	view._userinfo = readjust(other._userinfo);
+	view._host     = readjust(other._host);
+	view._port     = readjust(other._port);
+	view._query    = readjust(other._query);
+	view._fragment = readjust(other._fragment);
+	view._valid    = other._valid;
 	view.view = uri;
 }
 
@@ -634,6 +644,11 @@ void fg::URI::decodePercents(std::string& x) noexcept {
 		if (x[i] != '%')
 			continue;
 
+		// A percent sign that isn't followed by two hexadecimal digits doesn't encode anything.
+		constexpr std::string_view hexDigits = "0123456789abcdefABCDEF";
+		if (i + 2 >= x.size() || hexDigits.find(x[i + 1]) == std::string_view::npos || hexDigits.find(x[i + 2]) == std::string_view::npos)
+			continue;
+
 		// Read the next two chars and store them
 		std::array<char, 3> chars = {x[i + 1], x[i + 2]};
 		x[i] = static_cast<char>(std::strtoul(chars.data(), nullptr, 16));
-- 
2.43.0


From 07efc34f58e67b1e48c519dc78b1367c14d82d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 04/90] fix: check GLB chunk sizes against the container and
 forget the previous GLB buffer

Lengths that were smaller than the headers made the size checks wrap around, the
JSON chunk could reach past the end of the data, files shorter than a GLB header
were read past their end, a declined buffer mapping lost the buffer, and the BIN
chunk of one load could turn up as a buffer of the next one.
---
 src/fastgltf.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e736e3e..4b09310 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4836,15 +4836,18 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 #pragma region Parser
 fg::GltfType fg::determineGltfFileType(GltfDataGetter& data) {
 	// We'll try and read a BinaryGltfHeader from the buffer to see if the magic is correct.
-	auto header = readBinaryHeader(data);
 	data.reset();
-	if (header.magic == binaryGltfHeaderMagic) {
-		return GltfType::GLB;
+	if (data.totalSize() >= sizeof(BinaryGltfHeader)) {
+		auto header = readBinaryHeader(data);
+		data.reset();
+		if (header.magic == binaryGltfHeaderMagic) {
+			return GltfType::GLB;
+		}
 	}
 
 	// First, check if any of the first four characters is a '{'.
 	std::array<std::uint8_t, 4> begin = {};
-	data.read(begin.data(), begin.size());
+	data.read(begin.data(), std::min(begin.size(), data.totalSize()));
 	data.reset();
 	for (const auto& i : begin) {
 		if (static_cast<char>(i) == ' ')
@@ -4900,6 +4903,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path
 #endif
 
 	data.reset();
+	glbBuffer = std::monostate {};
 	auto jsonSpan = data.read(data.totalSize(), SIMDJSON_PADDING);
 	padded_string_view view(reinterpret_cast<const std::uint8_t*>(jsonSpan.data()),
 									  data.totalSize(),
@@ -4924,6 +4928,11 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     }
 
 	data.reset();
+	glbBuffer = std::monostate {};
+
+	if (data.totalSize() < sizeof(BinaryGltfHeader)) {
+		return Error::InvalidGLB;
+	}
 
     auto header = readBinaryHeader(data);
     if (header.magic != binaryGltfHeaderMagic) {
@@ -4932,7 +4941,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 	if (header.version != 2) {
 		return Error::UnsupportedVersion;
 	}
-    if (header.length > data.totalSize()) {
+    if (header.length > data.totalSize() || header.length < sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk)) {
 	    return Error::InvalidGLB;
     }
 
@@ -4940,7 +4949,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     //  1. JSON chunk
     //  2. BIN chunk (optional)
     auto jsonChunk = readBinaryChunk(data);
-    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > data.totalSize() - sizeof(BinaryGltfHeader)) {
+    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > header.length - sizeof(BinaryGltfHeader) - sizeof(BinaryGltfChunk)) {
 	    return Error::InvalidGLB;
     }
 
@@ -4966,7 +4975,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 		// TODO: Somehow allow skipping the binary part in the future?
 		if (binaryChunk.chunkLength != 0) {
-			if (binaryChunk.chunkLength > data.totalSize() - data.bytesRead()) {
+			if (binaryChunk.chunkLength > header.length - data.bytesRead()) {
 				return Error::InvalidGLB;
 			}
 
@@ -4979,7 +4988,9 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 					}
 					glbBuffer = sources::CustomBuffer{info.customId, MimeType::None};
 				}
-			} else {
+			}
+
+			if (std::holds_alternative<std::monostate>(glbBuffer)) {
 				StaticVector<std::byte> binaryData(binaryChunk.chunkLength);
 				data.read(binaryData.data(), binaryChunk.chunkLength);
 
-- 
2.43.0


From 5d11f66f7232e65c41da2bc217393bdf4a708335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:48 +0000
Subject: [PATCH 05/90] fix: keep memory-mapped glTF files readable past their
 end and close their descriptor

simdjson reads its padding past the end of the JSON, which faulted for files whose
size is (almost) a multiple of the page size, and a failing fstat leaked the file
descriptor.
---
 src/io.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 40a7eb1..ccdf214 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -205,16 +205,26 @@ fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept : mappedFile(M
 	struct stat statInfo {};
 	if (fstat(fd, &statInfo) != 0) {
 		error = Error::InvalidPath;
+		close(fd);
 		return;
 	}
 
+	// simdjson reads past the end of the JSON, so we first reserve a region that also covers the padding.
+	const auto mappingSize = static_cast<std::size_t>(statInfo.st_size) + simdjson::SIMDJSON_PADDING;
+	auto* region = mmap(nullptr, mappingSize, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+
 	// Map the file
-	mappedFile = mmap(nullptr,
-					  statInfo.st_size,
-					  PROT_READ,
-					  MAP_PRIVATE,
-					  fd,
-					  0);
+	if (region != MAP_FAILED) {
+		mappedFile = mmap(region,
+						  statInfo.st_size,
+						  PROT_READ,
+						  MAP_PRIVATE | MAP_FIXED,
+						  fd,
+						  0);
+		if (mappedFile == MAP_FAILED) {
+			munmap(region, mappingSize);
+		}
+	}
 	if (mappedFile != MAP_FAILED) {
 		fileSize = static_cast<std::uint64_t>(statInfo.st_size);
 
@@ -260,8 +270,8 @@ fg::MappedGltfFile& fg::MappedGltfFile::operator=(fastgltf::MappedGltfFile &&oth
 	}
 	fileHandle = std::exchange(other.fileHandle, nullptr);
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != nullptr && mappedFile != MAP_FAILED) {
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
 	}
 	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);
 #endif
@@ -283,8 +293,8 @@ fg::MappedGltfFile::~MappedGltfFile() noexcept {
 		CloseHandle(fileHandle);
 	}
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != nullptr && mappedFile != MAP_FAILED) {
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
 	}
 #endif
 }
-- 
2.43.0


From 8d73a6844dd01ca4859fb5fd61af1c6a9e896a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 06/90] fix: let every numeric value be stored in an Optional,
 and empty the source of a swap

---
 include/fastgltf/types.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4e373bf..995fb36 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -29,7 +29,9 @@
 
 #if !defined(FASTGLTF_USE_STD_MODULE) || !FASTGLTF_USE_STD_MODULE
 #include <cassert>
+#include <cstring>
 #include <filesystem>
+#include <limits>
 #include <optional>
 #include <string>
 #include <utility>
@@ -1097,14 +1099,13 @@ namespace fastgltf {
 
 	template<>
 	struct OptionalFlagValue<float, std::enable_if_t<std::numeric_limits<float>::is_iec559>> {
-		// This float is a quiet NaN with a specific bit pattern to be able to differentiate
-		// between this flag value and any result from FP operations.
-		static constexpr auto missing_value = static_cast<float>(0x7fedb6db);
+		// This is a quiet NaN, so that no numeric value is mistaken for a missing one.
+		static constexpr auto missing_value = std::numeric_limits<float>::quiet_NaN();
 	};
 
 	template<>
 	struct OptionalFlagValue<double, std::enable_if_t<std::numeric_limits<double>::is_iec559>> {
-		static constexpr auto missing_value = static_cast<double>(0x7ffdb6db6db6db6d);
+		static constexpr auto missing_value = std::numeric_limits<double>::quiet_NaN();
 	};
 
 	template<>
@@ -1238,7 +1239,13 @@ namespace fastgltf {
 		}
 
 		[[nodiscard]] bool has_value() const {
-			return this->_value != OptionalFlagValue<T>::missing_value;
+			if constexpr (std::is_floating_point_v<T>) {
+				// NaNs never compare equal, so their representation has to be compared instead.
+				constexpr T missing = OptionalFlagValue<T>::missing_value;
+				return std::memcmp(std::addressof(_value), std::addressof(missing), sizeof(T)) != 0;
+			} else {
+				return this->_value != OptionalFlagValue<T>::missing_value;
+			}
 		}
 
 		[[nodiscard]] T& value()& {
@@ -1360,8 +1367,10 @@ namespace fastgltf {
 				std::swap(_value, other._value);
 			} else if (has_value() && !other.has_value()) {
 				other._value = std::move(_value);
+				reset();
 			} else if (!has_value() && other.has_value()) {
 				_value = std::move(other._value);
+				other.reset();
 			}
 		}
 
-- 
2.43.0


From 4155df612e3132bc9194bbed52edb202640b1ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:27 +0000
Subject: [PATCH 07/90] fix: compare accessor type and physics enumeration
 names completely

---
 include/fastgltf/types.hpp | 59 ++++++++++++--------------------------
 1 file changed, 19 insertions(+), 40 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 995fb36..ad9706e 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -449,32 +449,6 @@ namespace fastgltf {
         AccessorType::Mat4,
     };
 
-    /**
-     * Gets the AccessorType by its string representation found in glTF files.
-     */
-    constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
-        assert(!accessorTypeName.empty());
-        switch (accessorTypeName[0]) {
-            case 'S': return AccessorType::Scalar;
-            case 'V': {
-                const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 1 >= accessorTypes.size()) {
-                    return AccessorType::Invalid;
-                }
-                return accessorTypes[componentCount + 1];
-            }
-            case 'M': {
-                const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 4 >= accessorTypes.size()) {
-                    return AccessorType::Invalid;
-                }
-                return accessorTypes[componentCount + 4];
-            }
-        	default:
-        		return AccessorType::Invalid;
-        }
-    }
-
 	static constexpr std::array<std::string_view, 7> accessorTypeNames = {
 		"SCALAR",
 		"VEC2",
@@ -485,6 +459,17 @@ namespace fastgltf {
 		"MAT4"
 	};
 
+    /**
+     * Gets the AccessorType by its string representation found in glTF files.
+     */
+    constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
+        for (std::size_t i = 0; i < accessorTypeNames.size(); ++i) {
+            if (accessorTypeNames[i] == accessorTypeName)
+                return accessorTypes[i];
+        }
+        return AccessorType::Invalid;
+    }
+
 	constexpr std::string_view getAccessorTypeName(AccessorType type) noexcept {
     	static_assert(std::is_same_v<std::underlying_type_t<AccessorType>, std::uint8_t>);
 		if (type == AccessorType::Invalid)
@@ -524,19 +509,13 @@ namespace fastgltf {
 
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 	[[nodiscard]] constexpr auto getCombineMode(const std::string_view name) noexcept {
-		assert(!name.empty());
-	    if(name[0] == 'a') {
+		if (name == "average") {
 			return CombineMode::Average;
-	    }
-
-		switch(name[1]) {
-	    case 'i':
+		} else if (name == "minimum") {
 			return CombineMode::Minimum;
-
-	    case 'a':
+		} else if (name == "maximum") {
 			return CombineMode::Maximum;
-
-	    case 'u':
+		} else if (name == "multiply") {
 			return CombineMode::Multiply;
 		}
 
@@ -557,9 +536,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveType(const std::string_view name) noexcept {
-		if (name[0] == 'l') {
+		if (name == "linear") {
 			return DriveType::Linear;
-		} else if (name[0] == 'a') {
+		} else if (name == "angular") {
 			return DriveType::Angular;
 		} else {
 			return DriveType::Invalid;
@@ -567,9 +546,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveMode(const std::string_view name) noexcept {
-	    if (name[0] == 'f') {
+	    if (name == "force") {
 			return DriveMode::Force;
-	    } else if (name[0] == 'a') {
+	    } else if (name == "acceleration") {
 			return DriveMode::Acceleration;
 	    } else {
 			return DriveMode::Invalid;
-- 
2.43.0


From 4ad049403b305f963c028b0748201bca0fc13f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 08/90] fix: reject an empty asset version

---
 src/fastgltf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4b09310..1e0b21d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1497,6 +1497,10 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			return Error::InvalidOrMissingAssetField;
 		}
 
+		if (version.empty()) FASTGLTF_UNLIKELY {
+			return Error::InvalidOrMissingAssetField;
+		}
+
 		const auto major = static_cast<std::uint32_t>(version.substr(0, 1)[0] - '0');
 		// std::uint32_t minor = version.substr(2, 3)[0] - '0';
 		if (major != 2U) {
-- 
2.43.0


From 07d94b47a95fec0914a0d6021a6e1daa515e0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:35 +0000
Subject: [PATCH 09/90] fix: reject component types, bounds and primitive modes
 that cannot be represented

---
 src/fastgltf.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1e0b21d..3e718b1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1666,6 +1666,9 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
         if (accessorObject["componentType"].get_uint64().get(componentType) != SUCCESS) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
+		if (componentType > std::numeric_limits<std::underlying_type_t<ComponentType>>::max()) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
 		accessor.componentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(componentType));
         if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) || !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
             return Error::InvalidGltf;
@@ -1726,6 +1729,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 							if (array.isType<double>()) {
 								array.set(idx++, value);
 							} else if (array.isType<std::int64_t>()) {
+								// Values that don't fit into an int64 (2^63 and above) cannot be converted.
+								if (!(value >= -9223372036854775808.0 && value < 9223372036854775808.0)) FASTGLTF_UNLIKELY {
+									return Error::InvalidGltf;
+								}
 								array.set(idx++, static_cast<std::int64_t>(value));
 							} else {
 								FASTGLTF_UNREACHABLE
@@ -1821,6 +1828,9 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             if (child["componentType"].get_uint64().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
                 return Error::InvalidGltf;
             }
+            if (value > std::numeric_limits<std::underlying_type_t<ComponentType>>::max()) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sparse.indexComponentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(value));
 
             // Accessor Sparse Values
@@ -3551,6 +3561,9 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 
 			std::uint64_t value;
 			if (auto error = primitiveObject["mode"].get_uint64().get(value); error == SUCCESS) FASTGLTF_LIKELY {
+				if (value > to_underlying(PrimitiveType::TriangleFan)) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				primitive.type = static_cast<PrimitiveType>(value);
 			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
-- 
2.43.0


From 77b1fa493b2f2f4820683d85f838953a389a8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 10/90] fix: don't carry a texture's texCoord over to the next
 texture of a material

---
 src/fastgltf.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3e718b1..ebde686 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3174,21 +3174,23 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 					return Error::InvalidGltf;
 				}
 				auto packedTextures = std::make_unique<MaterialPackedTextures>();
-				TextureInfo textureInfo = {};
-				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "occlusionRoughnessMetallicTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
-					packedTextures->occlusionRoughnessMetallicTexture = std::move(textureInfo);
+				TextureInfo occlusionRoughnessMetallicTexture = {};
+				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "occlusionRoughnessMetallicTexture", &occlusionRoughnessMetallicTexture, config.extensions); error == Error::None) FASTGLTF_LIKELY {
+					packedTextures->occlusionRoughnessMetallicTexture = std::move(occlusionRoughnessMetallicTexture);
 				} else if (error != Error::MissingField) {
 					return error;
 				}
 
-				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "roughnessMetallicOcclusionTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
-					packedTextures->roughnessMetallicOcclusionTexture = std::move(textureInfo);
+				TextureInfo roughnessMetallicOcclusionTexture = {};
+				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "roughnessMetallicOcclusionTexture", &roughnessMetallicOcclusionTexture, config.extensions); error == Error::None) FASTGLTF_LIKELY {
+					packedTextures->roughnessMetallicOcclusionTexture = std::move(roughnessMetallicOcclusionTexture);
 				} else if (error != Error::MissingField) {
 					return error;
 				}
 
-				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "normalTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
-					packedTextures->normalTexture = std::move(textureInfo);
+				TextureInfo normalTexture = {};
+				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "normalTexture", &normalTexture, config.extensions); error == Error::None) FASTGLTF_LIKELY {
+					packedTextures->normalTexture = std::move(normalTexture);
 				} else if (error != Error::MissingField) {
 					return error;
 				}
@@ -3355,15 +3357,17 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 				return Error::InvalidGltf;
 			}
 
-	        TextureInfo textureInfo;
-            if (auto error = parseTextureInfo(pbrMetallicRoughness, "baseColorTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
-                pbr.baseColorTexture = std::move(textureInfo);
+	        TextureInfo baseColorTexture = {};
+            if (auto error = parseTextureInfo(pbrMetallicRoughness, "baseColorTexture", &baseColorTexture, config.extensions); error == Error::None) FASTGLTF_LIKELY {
+                pbr.baseColorTexture = std::move(baseColorTexture);
             } else if (error != Error::MissingField) {
                 return error;
             }
 
-            if (auto error = parseTextureInfo(pbrMetallicRoughness, "metallicRoughnessTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
-                pbr.metallicRoughnessTexture = std::move(textureInfo);
+	        TextureInfo metallicRoughnessTexture = {};
+
+            if (auto error = parseTextureInfo(pbrMetallicRoughness, "metallicRoughnessTexture", &metallicRoughnessTexture, config.extensions); error == Error::None) FASTGLTF_LIKELY {
+                pbr.metallicRoughnessTexture = std::move(metallicRoughnessTexture);
             } else if (error != Error::MissingField) {
                 return error;
             }
-- 
2.43.0


From 45e642d2309c4659fbdc84fffebccb51d7179e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:55 +0000
Subject: [PATCH 11/90] fix: read node weights, and don't confuse missing
 lights with matrix errors

---
 src/fastgltf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ebde686..4f30342 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3678,7 +3678,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 
         auto weightsError = getJsonArray(nodeObject, "weights", &array);
         if (weightsError != Error::MissingField) {
-            if (weightsError != Error::None) {
+            if (weightsError == Error::None) FASTGLTF_LIKELY {
 	            node.weights = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(node.weights), resourceAllocator.get(), 0);
                 node.weights.reserve(array.size());
                 for (auto weightValue : array) {
@@ -3781,14 +3781,14 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         if (nodeObject["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
 			if (hasBit(config.extensions, Extensions::KHR_lights_punctual)) {
 				dom::object lightsObject;
-				if (extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto lightsError = extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject); lightsError == SUCCESS) FASTGLTF_LIKELY {
 					std::uint64_t light;
 					if (auto lightError = lightsObject["light"].get_uint64().get(light); lightError == SUCCESS) FASTGLTF_LIKELY {
 						node.lightIndex = static_cast<std::size_t>(light);
 					} else {
 						return lightError == NO_SUCH_FIELD || lightError == INCORRECT_TYPE ? Error::InvalidGltf : Error::InvalidJson;
 					}
-				} else if (error != NO_SUCH_FIELD) {
+				} else if (lightsError != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
 				}
 			}
-- 
2.43.0


From 65cf391ddfd69bfc52d171847027b4068657ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:19 +0000
Subject: [PATCH 12/90] fix: keep scenes without nodes

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4f30342..43ad1fd 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3972,11 +3972,11 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
 
                 scene.nodeIndices.emplace_back(static_cast<std::size_t>(index));
             }
-
-            asset.scenes.emplace_back(std::move(scene));
         } else if (nodeError != Error::MissingField) {
             return nodeError;
         }
+
+        asset.scenes.emplace_back(std::move(scene));
     }
 
 	return Error::None;
-- 
2.43.0


From af74587c303f2161d730fa86f9c996d23c43aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:44 +0000
Subject: [PATCH 13/90] fix: report malformed material extensions

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 43ad1fd..6e6d94e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3411,7 +3411,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
         dom::object extensionsObject;
         if (auto extensionError = materialObject["extensions"].get_object().get(extensionsObject); extensionError == SUCCESS) {
-			parseMaterialExtensions(extensionsObject, material);
+			if (auto error = parseMaterialExtensions(extensionsObject, material); error != Error::None) FASTGLTF_UNLIKELY {
+				return error;
+			}
         } else if (extensionError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
         }
-- 
2.43.0


From 72ed2d572e1c7f5f0da4d34bfe6889d75e3daeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:13 +0000
Subject: [PATCH 14/90] fix: compare light types completely

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6e6d94e..10de1e5 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2576,7 +2576,7 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
 
         std::string_view type;
         if (lightObject["type"].get_string().get(type) == SUCCESS) FASTGLTF_LIKELY {
-            switch (crcStringFunction(type.data())) {
+            switch (crcStringFunction(type)) {
                 case force_consteval<crc32c("directional")>: {
                     light.type = LightType::Directional;
                     break;
-- 
2.43.0


From 6e69ceb06889dbc89c18da25fe779a1c4426514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 15/90] fix: reject material variant mappings that refer to no
 variant

---
 include/fastgltf/core.hpp |  2 +-
 src/fastgltf.cpp          | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index f8b29a4..7568e98 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -861,7 +861,7 @@ namespace fastgltf {
 		Error parseLights(const simdjson::dom::array& array, Asset& asset);
 		Error parseMaterialExtensions(simdjson::dom::object& object, Material& material);
 		Error parseMaterials(simdjson::dom::array& array, Asset& asset);
-		Error parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive);
+		Error parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive, std::size_t variantCount);
 		Error parseMeshes(simdjson::dom::array& array, Asset& asset);
 		Error parseNodes(simdjson::dom::array& array, Asset& asset);
 		Error parseSamplers(const simdjson::dom::array& array, Asset& asset);
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 10de1e5..8ad4031 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1548,6 +1548,12 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 	}
 
+	// Other parts of the document refer to objects within the root extensions, so these need to be read first.
+	if (dom::object extensionsObject; root["extensions"].get_object().get(extensionsObject) == SUCCESS) {
+		if (auto error = parseExtensions(extensionsObject, asset); error != Error::None)
+			return error;
+	}
+
 	Category readCategories = Category::None;
 	for (const auto object : root) {
 		auto hashedKey = crcStringFunction(object.key);
@@ -1561,13 +1567,10 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 
 		if (hashedKey == force_consteval<crc32c("extensions")>) {
-			dom::object extensionsObject;
-			if (object.value.get_object().get(extensionsObject) != SUCCESS) FASTGLTF_UNLIKELY {
+			// These are already parsed before this section.
+			if (!object.value.is_object()) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
-
-			if (auto error = parseExtensions(extensionsObject, asset); error != Error::None)
-				return error;
 			continue;
 		}
 
@@ -3433,7 +3436,7 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 	return Error::None;
 }
 
-fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive) {
+fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive, std::size_t variantCount) {
 	using namespace simdjson;
 
 	for (auto extension : object) {
@@ -3473,6 +3476,10 @@ fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object
 							return Error::InvalidGltf;
 						}
 
+						if (variantIndex >= variantCount) FASTGLTF_UNLIKELY {
+							return Error::InvalidGltf;
+						}
+
 						primitive.mappings.resize(max(primitive.mappings.size(),
 													  static_cast<std::size_t>(variantIndex + 1)));
 						primitive.mappings[static_cast<std::size_t>(variantIndex)] = materialIndex;
@@ -3590,7 +3597,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			if (hasBit(config.extensions, Extensions::KHR_materials_variants) || hasBit(config.extensions, Extensions::KHR_draco_mesh_compression)) {
 				dom::object extensionsObject;
 				if (auto error = primitiveObject["extensions"].get_object().get(extensionsObject); error == SUCCESS) {
-					if (auto extensionError = parsePrimitiveExtensions(extensionsObject, primitive); extensionError != Error::None)
+					if (auto extensionError = parsePrimitiveExtensions(extensionsObject, primitive, asset.materialVariants.size()); extensionError != Error::None)
 						return extensionError;
 				} else if (error != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
-- 
2.43.0


From 9b38fafb35f1732a0affd875060ded49f3e8aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:57 +0000
Subject: [PATCH 16/90] fix: let node visibility, selectability and
 hoverability take their default

---
 src/fastgltf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8ad4031..779f4fc 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3836,7 +3836,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         	if (hasBit(config.extensions, Extensions::KHR_node_visibility)) {
         		dom::object nodeVisibilityObject;
         		if (auto nodeVisibilityError = extensionsObject[extensions::KHR_node_visibility].get_object().get(nodeVisibilityObject); nodeVisibilityError == SUCCESS) {
-        			if (nodeVisibilityObject["visible"].get_bool().get(node.visible) != SUCCESS) {
+        			if (auto error = nodeVisibilityObject["visible"].get_bool().get(node.visible); error != SUCCESS && error != NO_SUCH_FIELD) {
         				return Error::InvalidGltf;
         			}
         		} else if (nodeVisibilityError != NO_SUCH_FIELD) {
@@ -3847,7 +3847,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         	if (hasBit(config.extensions, Extensions::KHR_node_selectability)) {
         		dom::object nodeSelectabilityObject;
         		if (auto nodeSelectabilityError = extensionsObject[extensions::KHR_node_selectability].get_object().get(nodeSelectabilityObject); nodeSelectabilityError == SUCCESS) {
-        			if (nodeSelectabilityObject["selectable"].get_bool().get(node.selectable) != SUCCESS) {
+        			if (auto error = nodeSelectabilityObject["selectable"].get_bool().get(node.selectable); error != SUCCESS && error != NO_SUCH_FIELD) {
         				return Error::InvalidGltf;
         			}
         		} else if (nodeSelectabilityError != NO_SUCH_FIELD) {
@@ -3858,7 +3858,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         	if (hasBit(config.extensions, Extensions::KHR_node_hoverability)) {
         		dom::object nodeHoverabilityObject;
         		if (auto nodeHoverabilityError = extensionsObject[extensions::KHR_node_hoverability].get_object().get(nodeHoverabilityObject); nodeHoverabilityError == SUCCESS) {
-        			if (nodeHoverabilityObject["hoverable"].get_bool().get(node.hoverable) != SUCCESS) {
+        			if (auto error = nodeHoverabilityObject["hoverable"].get_bool().get(node.hoverable); error != SUCCESS && error != NO_SUCH_FIELD) {
         				return Error::InvalidGltf;
         			}
         		} else if (nodeHoverabilityError != NO_SUCH_FIELD) {
-- 
2.43.0


From 4f46cc8f23597b4ddee5fe243059149809485ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:20 +0000
Subject: [PATCH 17/90] fix: read box shapes without a size as boxes

---
 src/fastgltf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 779f4fc..0f202d9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4142,13 +4142,14 @@ fg::Error fg::Parser::parseShapes(const simdjson::dom::array& shapes, Asset& ass
 				return Error::InvalidGltf;
 		    }
 
+			auto& box = shape.emplace<BoxShape>();
+
 			dom::array sizeArray;
 			if (error = boxObject["size"].get_array().get(sizeArray); error == SUCCESS) {
 			    if (sizeArray.size() != 3) {
 					return Error::InvalidGltf;
 			    }
 
-				auto& box = shape.emplace<BoxShape>();
 				auto curIndex = 0;
 				for (auto sizeNum : sizeArray) {
 					double value;
-- 
2.43.0


From 1fce8bdcc60d91e7fce4ab9eb93dbf5679ca457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:05 +0000
Subject: [PATCH 18/90] fix: generate mesh indices that draw the same
 primitives, and check the position accessor

---
 src/fastgltf.cpp | 74 ++++++++++--------------------------------------
 1 file changed, 15 insertions(+), 59 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0f202d9..bc86aac 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -829,52 +829,27 @@ template fg::Error fg::Parser::parseAttributes(simdjson::dom::object&, decltype(
 
 namespace fastgltf {
 	template<typename T>
-	void writeIndices(PrimitiveType type, span<T> indices, std::size_t primitiveCount) {
-		// Generate the correct indices for every primitive topology
-		switch (type) {
-			case PrimitiveType::Points: {
-				for (std::size_t i = 0; i < primitiveCount; ++i)
-					indices[i] = static_cast<T>(i);
-				break;
-			}
-			case PrimitiveType::Lines:
-			case PrimitiveType::LineLoop:
-			case PrimitiveType::LineStrip: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 2 + 0] = static_cast<T>(i * 2 + 0);
-					indices[i * 2 + 1] = static_cast<T>(i * 2 + 1);
-				}
-				break;
-			}
-			case PrimitiveType::Triangles:
-			case PrimitiveType::TriangleStrip:
-			case PrimitiveType::TriangleFan: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 3 + 0] = static_cast<T>(i * 3 + 0);
-					indices[i * 3 + 1] = static_cast<T>(i * 3 + 1);
-					indices[i * 3 + 2] = static_cast<T>(i * 3 + 2);
-				}
-				break;
-			}
-			default: FASTGLTF_UNREACHABLE
-		}
+	void writeIndices(span<T> indices) {
+		// Drawing the vertices in their order with indices is the same as drawing them without, for every primitive topology.
+		for (std::size_t i = 0; i < indices.size(); ++i)
+			indices[i] = static_cast<T>(i);
 	}
 
-	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(PrimitiveType type, std::size_t indexCount, std::size_t primitiveCount) {
+	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(std::size_t indexCount) {
 		if (indexCount < 255) {
 			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint8_t));
 			span<std::uint8_t> indices(reinterpret_cast<std::uint8_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint8_t));
-			writeIndices(type, indices, primitiveCount);
+			writeIndices(indices);
 			return std::make_pair(generatedIndices, ComponentType::UnsignedByte);
 		} else if (indexCount < 65535) {
 			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint16_t));
 			span<std::uint16_t> indices(reinterpret_cast<std::uint16_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint16_t));
-			writeIndices(type, indices, primitiveCount);
+			writeIndices(indices);
 			return std::make_pair(generatedIndices, ComponentType::UnsignedShort);
 		} else {
 			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint32_t));
 			span<std::uint32_t> indices(reinterpret_cast<std::uint32_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint32_t));
-			writeIndices(type, indices, primitiveCount);
+			writeIndices(indices);
 			return std::make_pair(generatedIndices, ComponentType::UnsignedInt);
 		}
 	}
@@ -890,34 +865,15 @@ fg::Error fg::Parser::generateMeshIndices(fastgltf::Asset& asset) const {
 			if (positionAttribute == primitive.attributes.end()) {
 				return Error::InvalidGltf;
 			}
+			if (positionAttribute->accessorIndex >= asset.accessors.size()) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 			auto positionCount = asset.accessors[positionAttribute->accessorIndex].count;
+			if (positionCount > (std::numeric_limits<std::uint32_t>::max)()) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 
-			auto primitiveCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return positionCount;
-					case PrimitiveType::Lines: return positionCount / 2;
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return max<std::size_t>(0, positionCount - 1);
-					case PrimitiveType::Triangles: return positionCount / 3;
-					case PrimitiveType::TriangleStrip: return max<std::size_t>(0U, positionCount - 2);
-					case PrimitiveType::TriangleFan: return max<std::size_t>(0U, positionCount - 2);
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-			auto indexCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return primitiveCount;
-					case PrimitiveType::Lines:
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return primitiveCount * 2;
-					case PrimitiveType::Triangles:
-					case PrimitiveType::TriangleStrip:
-					case PrimitiveType::TriangleFan: return primitiveCount * 3;
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-
-			auto [generatedIndices, componentType] = writeIndices(primitive.type, indexCount, primitiveCount);
+			auto [generatedIndices, componentType] = writeIndices(positionCount);
 
 			auto bufferIdx = asset.buffers.size();
 			auto& buffer = asset.buffers.emplace_back();
-- 
2.43.0


From 38c732440190f778e063be66fa4886c47a4e9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 19/90] fix: read the inertia orientation of rigid bodies under
 its specified name

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index bc86aac..e6f73f0 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4610,7 +4610,7 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 		}
 
 		dom::array inertialOrientationArray;
-		if (error = motionObject["inertialOrientation"].get_array().get(inertialOrientationArray); error == SUCCESS) {
+		if (error = motionObject["inertiaOrientation"].get_array().get(inertialOrientationArray); error == SUCCESS) {
 			if (inertialOrientationArray.size() != 4) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
-- 
2.43.0


From b7d5a3ae73a2ebd4193952f6634b1026f4d0eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 20/90] fix: validate checks accessor, sampler and buffer view
 indices before it uses them

---
 src/fastgltf.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e6f73f0..a292e27 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -972,6 +972,9 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 
 		if (accessor.sparse) {
+			if (accessor.sparse->indicesBufferView >= asset.bufferViews.size() || accessor.sparse->valuesBufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
 			const auto& indicesView = asset.bufferViews[accessor.sparse->indicesBufferView];
 			if (indicesView.byteStride || indicesView.target)
 				return Error::InvalidGltf;
@@ -999,8 +1002,13 @@ fg::Error fg::validate(const Asset& asset) {
 		if (animation.samplers.empty())
 			return Error::InvalidGltf;
 		for (const auto& channel : animation.channels) {
+			if (channel.samplerIndex >= animation.samplers.size())
+				return Error::InvalidGltf;
 			const auto& sampler = animation.samplers[channel.samplerIndex];
 
+			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+				return Error::InvalidGltf;
+
 			const auto& inputAccessor = asset.accessors[sampler.inputAccessor];
 			// The accessor MUST be of scalar type with floating-point components
 			if (inputAccessor.type != AccessorType::Scalar)
-- 
2.43.0


From a481b7dc3f617b8450d6fe855eb9d18a0352868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:50 +0000
Subject: [PATCH 21/90] fix: validate rejects all references to elements that
 do not exist

---
 src/fastgltf.cpp | 104 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 101 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a292e27..94d852d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1001,13 +1001,16 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (animation.samplers.empty())
 			return Error::InvalidGltf;
+		for (const auto& sampler : animation.samplers) {
+			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+				return Error::InvalidGltf;
+		}
 		for (const auto& channel : animation.channels) {
 			if (channel.samplerIndex >= animation.samplers.size())
 				return Error::InvalidGltf;
-			const auto& sampler = animation.samplers[channel.samplerIndex];
-
-			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+			if (channel.nodeIndex.has_value() && *channel.nodeIndex >= asset.nodes.size())
 				return Error::InvalidGltf;
+			const auto& sampler = animation.samplers[channel.samplerIndex];
 
 			const auto& inputAccessor = asset.accessors[sampler.inputAccessor];
 			// The accessor MUST be of scalar type with floating-point components
@@ -1062,6 +1065,8 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (bufferView.meshoptCompression) {
 			const auto& compression = bufferView.meshoptCompression;
+			if (compression->bufferIndex >= asset.buffers.size())
+				return Error::InvalidGltf;
 			switch (compression->mode) {
 				case MeshoptCompressionMode::Attributes:
 					if (compression->byteStride % 4 != 0 || compression->byteStride > 256)
@@ -1142,6 +1147,38 @@ fg::Error fg::validate(const Asset& asset) {
 		    isInvalidTexture(material.pbrData.metallicRoughnessTexture->textureIndex))
 			return Error::InvalidGltf;
 
+		auto isInvalidInfo = [&](const auto& info) {
+			return info.has_value() && isInvalidTexture(info->textureIndex);
+		};
+		if (material.anisotropy && isInvalidInfo(material.anisotropy->anisotropyTexture))
+			return Error::InvalidGltf;
+		if (material.clearcoat && (isInvalidInfo(material.clearcoat->clearcoatTexture) ||
+			isInvalidInfo(material.clearcoat->clearcoatRoughnessTexture) || isInvalidInfo(material.clearcoat->clearcoatNormalTexture)))
+			return Error::InvalidGltf;
+		if (material.iridescence && (isInvalidInfo(material.iridescence->iridescenceTexture) ||
+			isInvalidInfo(material.iridescence->iridescenceThicknessTexture)))
+			return Error::InvalidGltf;
+		if (material.sheen && (isInvalidInfo(material.sheen->sheenColorTexture) || isInvalidInfo(material.sheen->sheenRoughnessTexture)))
+			return Error::InvalidGltf;
+		if (material.specular && (isInvalidInfo(material.specular->specularTexture) || isInvalidInfo(material.specular->specularColorTexture)))
+			return Error::InvalidGltf;
+		if (material.specularGlossiness && (isInvalidInfo(material.specularGlossiness->diffuseTexture) ||
+			isInvalidInfo(material.specularGlossiness->specularGlossinessTexture)))
+			return Error::InvalidGltf;
+		if (material.transmission && isInvalidInfo(material.transmission->transmissionTexture))
+			return Error::InvalidGltf;
+		if (material.volume && isInvalidInfo(material.volume->thicknessTexture))
+			return Error::InvalidGltf;
+		if (material.diffuseTransmission && (isInvalidInfo(material.diffuseTransmission->diffuseTransmissionTexture) ||
+			isInvalidInfo(material.diffuseTransmission->diffuseTransmissionColorTexture)))
+			return Error::InvalidGltf;
+		if (isInvalidInfo(material.packedNormalMetallicRoughnessTexture))
+			return Error::InvalidGltf;
+		if (const auto& packed = material.packedOcclusionRoughnessMetallicTextures; packed &&
+			(isInvalidInfo(packed->occlusionRoughnessMetallicTexture) || isInvalidInfo(packed->roughnessMetallicOcclusionTexture) ||
+			isInvalidInfo(packed->normalTexture)))
+			return Error::InvalidGltf;
+
 		// Validate that for every additional material field from an extension the correct extension is marked as used by the asset.
 		if (material.anisotropy && !isExtensionUsed(extensions::KHR_materials_anisotropy))
 			return Error::InvalidGltf;
@@ -1201,6 +1238,16 @@ fg::Error fg::validate(const Asset& asset) {
 				}
 			}
 
+			for (const auto& target : primitive.targets) {
+				for (const auto& attribute : target) {
+					if (attribute.accessorIndex >= asset.accessors.size())
+						return Error::InvalidGltf;
+				}
+			}
+
+			if (primitive.dracoCompression && primitive.dracoCompression->bufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
 			for (const auto& [name, index] : primitive.attributes) {
 				if (asset.accessors.size() <= index)
 					return Error::InvalidGltf;
@@ -1310,6 +1357,50 @@ fg::Error fg::validate(const Asset& asset) {
 			return Error::InvalidGltf;
 		if (node.meshIndex.has_value() && asset.meshes.size() <= node.meshIndex.value())
 			return Error::InvalidGltf;
+		if (node.lightIndex.has_value() && asset.lights.size() <= node.lightIndex.value())
+			return Error::InvalidGltf;
+		for (const auto& child : node.children) {
+			if (child >= asset.nodes.size())
+				return Error::InvalidGltf;
+		}
+		for (const auto& attribute : node.instancingAttributes) {
+			if (attribute.accessorIndex >= asset.accessors.size())
+				return Error::InvalidGltf;
+		}
+#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
+		if (node.physicsRigidBody) {
+			const auto& body = *node.physicsRigidBody;
+			auto isInvalidGeometry = [&](const Geometry& geometry) {
+#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
+				if (geometry.shape.has_value() && *geometry.shape >= asset.shapes.size())
+					return true;
+#endif
+				return geometry.node.has_value() && *geometry.node >= asset.nodes.size();
+			};
+			auto isInvalidFilter = [&](const Optional<std::size_t>& filter) {
+				return filter.has_value() && *filter >= asset.collisionFilters.size();
+			};
+			if (body.collider.has_value()) {
+				if (isInvalidGeometry(body.collider->geometry) || isInvalidFilter(body.collider->collisionFilter))
+					return Error::InvalidGltf;
+				if (body.collider->physicsMaterial.has_value() && *body.collider->physicsMaterial >= asset.physicsMaterials.size())
+					return Error::InvalidGltf;
+			}
+			if (body.trigger.has_value()) {
+				if (const auto* geometryTrigger = std::get_if<GeometryTrigger>(&*body.trigger)) {
+					if (isInvalidGeometry(geometryTrigger->geometry) || isInvalidFilter(geometryTrigger->collisionFilter))
+						return Error::InvalidGltf;
+				} else if (const auto* nodeTrigger = std::get_if<NodeTrigger>(&*body.trigger)) {
+					for (const auto& triggerNode : nodeTrigger->nodes) {
+						if (triggerNode >= asset.nodes.size())
+							return Error::InvalidGltf;
+					}
+				}
+			}
+			if (body.joint.has_value() && (body.joint->connectedNode >= asset.nodes.size() || body.joint->joint >= asset.physicsJoints.size()))
+				return Error::InvalidGltf;
+		}
+#endif
 
 		if (const auto* pTRS = std::get_if<TRS>(&node.transform)) {
 			if (pTRS->rotation.x() > 1.0 || pTRS->rotation.x() < -1.0)
@@ -1354,6 +1445,9 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 	}
 
+	if (asset.defaultScene.has_value() && *asset.defaultScene >= asset.scenes.size())
+		return Error::InvalidGltf;
+
 	for (const auto& scene : asset.scenes) {
 		for (const auto& node : scene.nodeIndices) {
 			if (node >= asset.nodes.size())
@@ -1364,6 +1458,10 @@ fg::Error fg::validate(const Asset& asset) {
 	for (const auto& skin : asset.skins) {
 		if (skin.joints.empty())
 			return Error::InvalidGltf;
+		for (const auto& joint : skin.joints) {
+			if (joint >= asset.nodes.size())
+				return Error::InvalidGltf;
+		}
 		if (skin.skeleton.has_value() && skin.skeleton.value() >= asset.nodes.size())
 			return Error::InvalidGltf;
 		if (skin.inverseBindMatrices.has_value() && skin.inverseBindMatrices.value() >= asset.accessors.size())
-- 
2.43.0


From df0c0ca5812236cf28fa5ed74a6403f9932c726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:03 +0000
Subject: [PATCH 22/90] fix: validate checks the alignment of accessors that
 start at offset 0

---
 src/fastgltf.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 94d852d..641432c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -934,23 +934,21 @@ fg::Error fg::validate(const Asset& asset) {
 		if (accessor.bufferViewIndex.has_value() &&
 		    accessor.bufferViewIndex.value() >= asset.bufferViews.size())
 			return Error::InvalidGltf;
-		if (accessor.byteOffset != 0) {
-			// The offset of an accessor into a bufferView (i.e., accessor.byteOffset)
-			// and the offset of an accessor into a buffer (i.e., accessor.byteOffset + bufferView.byteOffset)
-			// MUST be a multiple of the size of the accessor’s component type.
-			auto componentByteSize = getComponentByteSize(accessor.componentType);
-			if (accessor.byteOffset % componentByteSize != 0)
-				return Error::InvalidGltf;
+		// The offset of an accessor into a bufferView (i.e., accessor.byteOffset)
+		// and the offset of an accessor into a buffer (i.e., accessor.byteOffset + bufferView.byteOffset)
+		// MUST be a multiple of the size of the accessor’s component type.
+		auto componentByteSize = getComponentByteSize(accessor.componentType);
+		if (accessor.byteOffset % componentByteSize != 0)
+			return Error::InvalidGltf;
 
-			if (accessor.bufferViewIndex.has_value()) {
-				const auto& bufferView = asset.bufferViews[accessor.bufferViewIndex.value()];
-				if ((accessor.byteOffset + bufferView.byteOffset) % componentByteSize != 0)
-					return Error::InvalidGltf;
+		if (accessor.bufferViewIndex.has_value()) {
+			const auto& bufferView = asset.bufferViews[accessor.bufferViewIndex.value()];
+			if ((accessor.byteOffset + bufferView.byteOffset) % componentByteSize != 0)
+				return Error::InvalidGltf;
 
-				// When byteStride is defined, it MUST be a multiple of the size of the accessor’s component type.
-				if (bufferView.byteStride.has_value() && bufferView.byteStride.value() % componentByteSize != 0)
-					return Error::InvalidGltf;
-			}
+			// When byteStride is defined, it MUST be a multiple of the size of the accessor’s component type.
+			if (bufferView.byteStride.has_value() && bufferView.byteStride.value() % componentByteSize != 0)
+				return Error::InvalidGltf;
 		}
 
 		if (accessor.max.has_value()) {
-- 
2.43.0


From 55eaf2c607b6e6a456ce632cef5639021060e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 23/90] fix: report only categories as available that were
 loaded

---
 src/fastgltf.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 641432c..574bb7d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1644,9 +1644,10 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 
 #define KEY_SWITCH_CASE(name, id) case force_consteval<crc32c(FASTGLTF_QUOTE(id))>:       \
-                if (hasBit(categories, Category::name))   \
-                    error = parse##name(array, asset);                     \
-                readCategories |= Category::name;         \
+                if (hasBit(categories, Category::name)) { \
+                    error = parse##name(array, asset);    \
+                    readCategories |= Category::name;     \
+                }                                         \
                 break;
 
 		Error error = Error::None;
-- 
2.43.0


From a286e2d059af5b6cbe3c005df145004369f73363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 24/90] fix: write the cone angles of spot lights as the spot
 object they belong to

---
 src/fastgltf.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 574bb7d..afb5aa9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5751,11 +5751,15 @@ void fg::Exporter::writeLights(const Asset& asset, std::string& json) {
 		}
 
 		if (it->type == LightType::Spot) {
+			json += R"(,"spot":{)";
 			if (it->innerConeAngle.has_value())
-				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value()) + ',';
+				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value());
 
-			if (it->outerConeAngle.has_value())
-				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value()) + ',';
+			if (it->outerConeAngle.has_value()) {
+				if (json.back() != '{') json += ',';
+				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value());
+			}
+			json += '}';
 		}
 
 		if (!it->name.empty())
-- 
2.43.0


From 68c5223ba4b737e6991e41aa006f6ac2a208454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 25/90] fix: no leading comma before the name of a texture
 without sampler and source

---
 src/fastgltf.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index afb5aa9..3902a3e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6704,8 +6704,11 @@ void fg::Exporter::writeTextures(const Asset& asset, std::string& json) {
 			}
 		}
 
-		if (!it->name.empty())
-			json += R"(,"name":")" + fg::escapeString(it->name) + '"';
+		if (!it->name.empty()) {
+			if (json.back() != '{')
+				json += ',';
+			json += R"("name":")" + fg::escapeString(it->name) + '"';
+		}
 		json += '}';
 		if (uabs(std::distance(asset.textures.begin(), it)) + 1 <asset.textures.size())
 			json += ',';
-- 
2.43.0


From 9eca87b6990df85a6b6539fdc1739626e2969468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 26/90] fix: write the mime type of images referring to a URI

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3902a3e..dfcf3fd 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5688,6 +5688,9 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 			},
 			[&](const sources::URI& uri) {
 				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
+				if (uri.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
+				}
                 imagePaths.emplace_back(std::nullopt);
 			},
 		}, it->data);
-- 
2.43.0


From e904fb17bcaad4331b1420fdf076d694c9e73783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 27/90] fix: no trailing comma in exported collision filters

---
 src/fastgltf.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index dfcf3fd..93c3471 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6869,11 +6869,10 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
-
 		if (!filter.collideWithSystems.empty()) {
+			if (json.back() == ']') {
+				json += ',';
+			}
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -6886,11 +6885,10 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
-
 		if (!filter.notCollideWithSystems.empty()) {
+			if (json.back() == ']') {
+				json += ',';
+			}
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
-- 
2.43.0


From d854a4149b8560e6e0a422693cd297907b71860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 28/90] fix: write rigid bodies of nodes as valid
 KHR_physics_rigid_bodies JSON

---
 src/fastgltf.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 93c3471..675d54e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6410,23 +6410,23 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 			if (it->physicsRigidBody) {
 				if (json.back() != '{') json += ',';
-				json += R"("KHR_physics_rigid_body":{)";
+				json += R"("KHR_physics_rigid_bodies":{)";
 				if (it->physicsRigidBody->motion.has_value()) {
 					const auto& motion = *it->physicsRigidBody->motion;
-					json += R"("motion":{"isKinematic":)" + std::to_string(motion.isKinematic);
+					json += R"("motion":{"isKinematic":)" + std::string(motion.isKinematic ? "true" : "false");
 					if (motion.mass.has_value()) {
 						json += R"(,"mass":)" + to_string_fp(*motion.mass);
 					}
 					json += R"(,"centerOfMass":[)" + to_string(motion.centerOfMass) + ']';
 					if (motion.inertialDiagonal.has_value()) {
-						json += R"(,"inertialDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
+						json += R"(,"inertiaDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
 					}
 					if (motion.inertialOrientation.has_value()) {
-						json += R"(,"inertialOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
+						json += R"(,"inertiaOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
 					}
-					json += R"(,"linearVelocity":)" + to_string(motion.linearVelocity)
+					json += R"(,"linearVelocity":[)" + to_string(motion.linearVelocity)
 				        + R"(],"angularVelocity":[)" + to_string(motion.angularVelocity)
-				        + R"(],"gravityFactor":[)" + to_string_fp(motion.gravityFactor) + '}';
+				        + R"(],"gravityFactor":)" + to_string_fp(motion.gravityFactor) + '}';
 				}
 
 				if (it->physicsRigidBody->trigger.has_value()) {
@@ -6438,10 +6438,11 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 							json += R"("geometry":{)";
 							if (geometry.geometry.shape.has_value()) {
 								json += R"("shape":)" + std::to_string(*geometry.geometry.shape) + ',';
-							} else if(geometry.geometry.node.has_value()) {
+							}
+							if (geometry.geometry.node.has_value()) {
 								json += R"("node":)" + std::to_string(*geometry.geometry.node) + ',';
 							}
-							json += R"("convexHull":)" + std::to_string(geometry.geometry.convexHull) + '}';
+							json += R"("convexHull":)" + std::string(geometry.geometry.convexHull ? "true" : "false") + '}';
 
 							if (geometry.collisionFilter.has_value()) {
 								json += R"(,"collisionFilter":)" + std::to_string(*geometry.collisionFilter);
@@ -6465,7 +6466,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					const auto& joint = *it->physicsRigidBody->joint;
 					json += R"("joint":{"connectedNode":)" + std::to_string(joint.connectedNode)
 				        + R"(,"joint":)" + std::to_string(joint.joint)
-				        + R"(,"enableCollision":)" + std::to_string(joint.enableCollision) + '}';
+				        + R"(,"enableCollision":)" + std::string(joint.enableCollision ? "true" : "false") + '}';
 				}
 
 				if (it->physicsRigidBody->collider.has_value()) {
@@ -6476,10 +6477,11 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					json += R"("geometry":{)";
 					if (collider.geometry.shape.has_value()) {
 						json += R"("shape":)" + std::to_string(*collider.geometry.shape) + ',';
-					} else if (collider.geometry.node.has_value()) {
+					}
+					if (collider.geometry.node.has_value()) {
 						json += R"("node":)" + std::to_string(*collider.geometry.node) + ',';
 					}
-					json += R"("convexHull":)" + std::to_string(collider.geometry.convexHull) + '}';
+					json += R"("convexHull":)" + std::string(collider.geometry.convexHull ? "true" : "false") + '}';
 
 					if (collider.physicsMaterial.has_value()) {
 						json += R"(,"physicsMaterial":)" + std::to_string(*collider.physicsMaterial);
@@ -6489,6 +6491,8 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					}
 					json += '}';
 				}
+
+				json += '}';
 			}
 #endif
 
-- 
2.43.0


From 3e3316e88a74020262b2715f90a297f83299311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 29/90] fix: separate the members of exported
 MSFT_packing_occlusionRoughnessMetallic

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 675d54e..f0dc1c5 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6126,10 +6126,12 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->occlusionRoughnessMetallicTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("roughnessMetallicOcclusionTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->normalTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("normalTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->normalTexture.value());
 			}
-- 
2.43.0


From aad6cc1ac286f376dc4dc00c849f7671f5cde011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 30/90] fix: write material variant mappings within their
 bounds

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f0dc1c5..b85eaa7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6222,7 +6222,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 				if (!itp->mappings.empty()) {
 					json += R"("KHR_materials_variants":{"mappings":[)";
 					// TODO: We should optimise to avoid writing multiple objects for the same material index
-					for (std::size_t i = 0; i < asset.materialVariants.size(); ++i) {
+					for (std::size_t i = 0; i < itp->mappings.size(); ++i) {
 						if (!itp->mappings[i].has_value())
 							continue;
 						if (json.back() == '}')
-- 
2.43.0


From c6639f89a9beb455c4a550d615c97e2f3bdc97aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 31/90] fix: an error of one export does not fail the next

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b85eaa7..993396c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7204,6 +7204,7 @@ fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const As
     bufferPaths.clear();
     imagePaths.clear();
     options = _options;
+    errorCode = Error::None;
 	exportingBinary = false;
 
     if (hasBit(options, ExportOptions::ValidateAsset)) {
@@ -7229,6 +7230,7 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
     bufferPaths.clear();
     imagePaths.clear();
     options = _options;
+    errorCode = Error::None;
 	exportingBinary = true;
 
     options &= (~ExportOptions::PrettyPrintJson);
-- 
2.43.0


From f88cce4758e9e4065ba0abf638ffffe94deb67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 32/90] fix: writeGltfBinary honours
 ExportOptions::ValidateAsset

---
 src/fastgltf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 993396c..fbe9ed2 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7235,6 +7235,12 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 
     options &= (~ExportOptions::PrettyPrintJson);
 
+    if (hasBit(options, ExportOptions::ValidateAsset)) {
+        if (const auto validation = validate(asset); validation != Error::None) {
+            return validation;
+        }
+    }
+
     ExportResult<std::vector<std::byte>> result;
     auto json = writeJson(asset);
     if (errorCode != Error::None) {
-- 
2.43.0


From f25ee24e08d98ca90528478324a3e07ae825503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 33/90] fix: prettyPrintJson handles escaped backslashes and
 strings in a row

---
 src/fastgltf.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index fbe9ed2..8f530d0 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5130,14 +5130,13 @@ void fg::prettyPrintJson(std::string& json) {
 
     while (i < json.size()) {
         if (json[i] == '"') {
-            // Skip to the end of the string
-            do {
-                ++i;
-                if (json[i] == '"' && json[i - 1] != '\\') {
-                    break;
-                }
-            } while (true);
+            // Skip to the end of the string, including every escaped character
+            ++i;
+            while (i < json.size() && json[i] != '"') {
+                i += json[i] == '\\' ? 2 : 1;
+            }
             ++i; // Skip over the last "
+            continue;
         }
 
         switch (json[i]) {
-- 
2.43.0


From efee737dced4ed94fa627ac656005704609b5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 34/90] fix: escapeString escapes every character that needs it

---
 src/fastgltf.cpp | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8f530d0..464225f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5163,26 +5163,24 @@ void fg::prettyPrintJson(std::string& json) {
 
 namespace fastgltf {
 	static void escapeString(std::string& string) {
-		std::size_t i = 0;
-		do {
-			switch (string[i]) {
-				case '\"': {
-					constexpr std::string_view s = "\\\"";
-					string.replace(i, 1, s);
-					i += s.size();
-					break;
-				}
-				case '\\': {
-					constexpr std::string_view s = "\\\\";
-					string.replace(i, 1, s);
-					i += s.size();
-					break;
-				}
-				default:
-					break;
+		static constexpr std::string_view hexDigits = "0123456789abcdef";
+		std::string escaped;
+		escaped.reserve(string.size());
+		for (const char c : string) {
+			const auto code = static_cast<unsigned char>(c);
+			if (c == '\"' || c == '\\') {
+				escaped += '\\';
+				escaped += c;
+			} else if (code < 0x20) {
+				// Control characters are not allowed within JSON strings
+				escaped += "\\u00";
+				escaped += hexDigits[code >> 4U];
+				escaped += hexDigits[code & 0xFU];
+			} else {
+				escaped += c;
 			}
-			++i;
-		} while (i < string.size());
+		}
+		string = std::move(escaped);
 	}
 
 	/**
-- 
2.43.0


From 76bacba32c5d0e49753aed5949d278ac2ab6010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 35/90] fix: escape attribute, variant, system and extension
 names when writing

---
 src/fastgltf.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 464225f..7bdea29 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6176,7 +6176,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
                 {
                     json += R"("attributes":{)";
                     for (auto ita = itp->attributes.begin(); ita != itp->attributes.end(); ++ita) {
-                        json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+                        json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
                         if (uabs(std::distance(itp->attributes.begin(), ita)) + 1 <itp->attributes.size())
                             json += ',';
                     }
@@ -6197,7 +6197,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
             		for (auto itt = itp->targets.begin(); itt != itp->targets.end(); ++itt) {
 						json += '{';
 						for (auto ita = itt->begin(); ita != itt->end(); ++ita) {
-							json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+							json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 							if (uabs(std::distance(itt->begin(), ita)) + 1 < itt->size())
 								json += ',';
 						}
@@ -6236,7 +6236,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
@@ -6394,7 +6394,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 			if (!it->instancingAttributes.empty()) {
 				json += R"("EXT_mesh_gpu_instancing":{"attributes":{)";
 				for (auto ait = it->instancingAttributes.begin(); ait != it->instancingAttributes.end(); ++ait) {
-					json += '"' + std::string(ait->name) + "\":" + std::to_string(ait->accessorIndex);
+					json += '"' + fg::escapeString(ait->name) + "\":" + std::to_string(ait->accessorIndex);
 					if (uabs(std::distance(it->instancingAttributes.begin(), ait)) + 1 <
 						it->instancingAttributes.size())
 						json += ',';
@@ -6863,7 +6863,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collisionSystems":[)";
 			for (auto systemIt = filter.collisionSystems.begin(); systemIt != filter.collisionSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collisionSystems.begin(), systemIt)) + 1 < filter.collisionSystems.size()) {
@@ -6879,7 +6879,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collideWithSystems.begin(), systemIt)) + 1 < filter.collideWithSystems.size()) {
@@ -6895,7 +6895,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.notCollideWithSystems.begin(), systemIt)) + 1 < filter.notCollideWithSystems.size()) {
@@ -7085,7 +7085,7 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
 		for (const auto& variant : asset.materialVariants) {
 			if (json.back() == '}')
 				json += ',';
-			json += R"({"name":")" + variant + "\"}";
+			json += R"({"name":")" + fg::escapeString(variant) + "\"}";
 		}
 		json += "]}";
 	}
@@ -7144,7 +7144,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
             outputString += R"("copyright":")" + fg::escapeString(asset.assetInfo->copyright) + "\",";
         if (!asset.assetInfo->generator.empty())
             outputString += R"("generator":")" + fg::escapeString(asset.assetInfo->generator) + "\",";
-        outputString += R"("version":")" + asset.assetInfo->gltfVersion + '"';
+        outputString += R"("version":")" + fg::escapeString(asset.assetInfo->gltfVersion) + '"';
     } else {
         outputString += R"("generator":"fastgltf",)";
         outputString += R"("version":"2.0")";
@@ -7156,7 +7156,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsUsed\":[";
 		for (auto it = asset.extensionsUsed.begin(); it != asset.extensionsUsed.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsUsed.begin(), it)) + 1 <asset.extensionsUsed.size())
 				outputString += ',';
 		}
@@ -7166,7 +7166,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsRequired\":[";
 		for (auto it = asset.extensionsRequired.begin(); it != asset.extensionsRequired.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsRequired.begin(), it)) + 1 <asset.extensionsRequired.size())
 				outputString += ',';
 		}
-- 
2.43.0


From 83bf6fb56589b457875780328426f81660ddf0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 36/90] fix: ask for the extras of collision filters with their
 own category

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7bdea29..e7020f5 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6906,7 +6906,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 		}
 
 		if (extrasWriteCallback != nullptr) {
-			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::Shapes, userPointer);
+			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::CollisionFilters, userPointer);
 			if (extras.has_value()) {
 				if (json.back() != '{') {
 					json += ',';
-- 
2.43.0


From 2a9e6155de749d07da7b78ad3eed792a2f5f18f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 37/90] fix: writeGltfBinary refuses buffers with fewer bytes
 than their length

---
 src/fastgltf.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e7020f5..8a96c57 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7253,6 +7253,19 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data))
 			&& asset.buffers.front().byteLength < std::numeric_limits<decltype(BinaryGltfChunk::chunkLength)>::max();
 
+    if (withEmbeddedBuffer) {
+        // The source has to hold all of the buffer's bytes
+        const auto sourceSize = std::visit(visitor {
+            [](auto&) { return std::size_t(0); },
+            [](const sources::Array& array) { return array.bytes.size(); },
+            [](const sources::Vector& vector) { return vector.bytes.size(); },
+            [](const sources::ByteView& view) { return view.bytes.size(); },
+        }, asset.buffers.front().data);
+        if (sourceSize < asset.buffers.front().byteLength) {
+            return Error::InvalidGltf;
+        }
+    }
+
     std::size_t binarySize = 0;
     binarySize += sizeof(BinaryGltfHeader); // glTF header
     binarySize += sizeof(BinaryGltfChunk) + alignUp(json.size(), 4); // JSON chunk
-- 
2.43.0


From 27762ea50b5b83849ca73b0d8870ac7e7facc3e7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 38/90] fix: signed 32-bit vectors have signed 32-bit
 components

---
 include/fastgltf/tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 32fcd8c..406edba 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -152,9 +152,9 @@ template<> struct ElementTraits<math::u16vec2> : ElementTraitsBase<math::u16vec2
 template<> struct ElementTraits<math::u16vec3> : ElementTraitsBase<math::u16vec3, AccessorType::Vec3, std::uint16_t> {};
 template<> struct ElementTraits<math::u16vec4> : ElementTraitsBase<math::u16vec4, AccessorType::Vec4, std::uint16_t> {};
 
-template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int16_t> {};
+template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int32_t> {};
 template<> struct ElementTraits<math::u32vec2> : ElementTraitsBase<math::u32vec2, AccessorType::Vec2, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec3> : ElementTraitsBase<math::u32vec3, AccessorType::Vec3, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec4> : ElementTraitsBase<math::u32vec4, AccessorType::Vec4, std::uint32_t> {};
-- 
2.43.0


From aa170ee200653c61a8f925335963a4290812dff8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 39/90] fix: sparse lookup does not truncate the index searched
 for

---
 include/fastgltf/tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 406edba..6346059 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -400,7 +400,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		auto step = count / 2;
 		auto index = resultIndex + step;
 
-		if (deserializeComponent<ElementType>(indices, index) < static_cast<ElementType>(desiredIndex)) {
+		if (static_cast<std::size_t>(deserializeComponent<ElementType>(indices, index)) < desiredIndex) {
 			resultIndex = index + 1;
 			count -= step + 1;
 		} else {
@@ -408,7 +408,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		}
 	}
 
-	return resultIndex < indexCount && deserializeComponent<ElementType>(indices, resultIndex) == static_cast<ElementType>(desiredIndex);
+	return resultIndex < indexCount && static_cast<std::size_t>(deserializeComponent<ElementType>(indices, resultIndex)) == desiredIndex;
 }
 
 // Finds the index of the nearest sparse index to the desired index
-- 
2.43.0


From 012291d2840a7be8e78b4f0a672a73542683a9ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 40/90] fix: elements without data are zero for matrices and
 quaternions too

---
 include/fastgltf/tools.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 6346059..29b980d 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -388,6 +388,14 @@ ElementType getAccessorElementAt(ComponentType componentType, const std::byte* b
 	}
 }
 
+// The value of elements of accessors without data, whose components all have to be zero. The default-constructed
+// element is not necessarily that, as it is the identity for matrices and quaternions.
+template <typename ElementType>
+ElementType getZeroElement() {
+	constexpr std::array<std::byte, getNumComponents(ElementTraits<ElementType>::type) * sizeof(double)> zeros {};
+	return getAccessorElementAt<ElementType>(ElementTraits<ElementType>::enum_component_type, zeros.data());
+}
+
 // Performs a binary search for the index into the sparse index list whose value matches the desired index
 template <typename ElementType>
 bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size_t desiredIndex,
@@ -649,11 +657,7 @@ ElementType getAccessorElement(const Asset& asset, const Accessor& accessor, siz
 	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
-		if constexpr (std::is_aggregate_v<ElementType>) {
-			return ElementType{};
-		} else {
-			return ElementType();
-		}
+		return internal::getZeroElement<ElementType>();
 	}
 
 	const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -734,7 +738,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 
 				std::invoke(func, element);
 			} else {
-				std::invoke(func, ElementType {});
+				std::invoke(func, internal::getZeroElement<ElementType>());
 			}
 		}
 
@@ -746,7 +750,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
-			std::invoke(func, ElementType {});
+			std::invoke(func, internal::getZeroElement<ElementType>());
 		}
 	} else {
 		auto& view = asset.bufferViews[*accessor.bufferViewIndex];
-- 
2.43.0


From 658515573297416701a2cd10ca2d05e35f33c23d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 41/90] fix: copyFromAccessor fills whole elements for
 accessors without data

---
 include/fastgltf/tools.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 29b980d..5be4efc 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -810,22 +810,17 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		if constexpr (std::is_trivially_copyable_v<ElementType>) {
-			if (TargetStride == elemSize) {
-				std::memset(dest, 0, elemSize * accessor.count);
+			if (TargetStride == sizeof(ElementType)) {
+				std::memset(dest, 0, sizeof(ElementType) * accessor.count);
 			} else {
 				for (std::size_t i = 0; i < accessor.count; ++i) {
-					std::memset(dstBytes + i * TargetStride, 0, elemSize);
+					std::memset(dstBytes + i * TargetStride, 0, sizeof(ElementType));
 				}
 			}
 		} else {
 			for (std::size_t i = 0; i < accessor.count; ++i) {
 				auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
-
-				if constexpr (std::is_aggregate_v<ElementType>) {
-					*pDest = ElementType {};
-				} else {
-					*pDest = ElementType();
-				}
+				*pDest = internal::getZeroElement<ElementType>();
 			}
 		}
 
-- 
2.43.0


From 8c578e4e4f7cc1f64359e990f3f8cbf31c8bf8bc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 42/90] fix: copyFromAccessor converts normalized data

---
 include/fastgltf/tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 5be4efc..2f86936 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -845,7 +845,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
 			*pDest = internal::getAccessorElementAt<ElementType>(
-                    accessor.componentType, &srcBytes[srcStride * i]);
+                    accessor.componentType, &srcBytes[srcStride * i], accessor.normalized);
 		}
 	}
 }
-- 
2.43.0


From 94935b33b3acfdedffbaa019cce651256f6c3c38 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 43/90] fix: accessor ranges handle missing data, empty sparse
 data, and any order of reading

---
 include/fastgltf/tools.hpp | 49 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 2f86936..6965216 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -499,7 +499,7 @@ public:
 
 	AccessorIterator(const IterableAccessor<ElementType, BufferDataAdapter>* accessor, std::size_t idx = 0)
 			: accessor(accessor), idx(idx) {
-		if (accessor->accessor.sparse.has_value()) {
+		if (accessor->sparseCount > 0) {
 			// Get the first sparse index.
 			nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
 			                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
@@ -535,23 +535,28 @@ public:
 	}
 
 	[[nodiscard]] ElementType operator*() const noexcept {
-		if (accessor->accessor.sparse.has_value()) {
-			if (idx == nextSparseIndex) {
-				// Get the sparse value for this index
-				auto value = internal::getAccessorElementAt<ElementType>(accessor->componentType,
-																		 &accessor->valuesBytes[accessor->valueStride * sparseIdx],
-																		 accessor->accessor.normalized);
-
-				// Find the next sparse index.
-				++sparseIdx;
-				if (sparseIdx < accessor->sparseCount) {
-					nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
-					                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
-				}
-				return value;
+		// Find the next sparse index that is not before this index.
+		while (sparseIdx < accessor->sparseCount && nextSparseIndex < idx) {
+			++sparseIdx;
+			if (sparseIdx < accessor->sparseCount) {
+				nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
+				                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
 			}
 		}
 
+		if (sparseIdx < accessor->sparseCount && idx == nextSparseIndex) {
+			// Get the sparse value for this index
+			return internal::getAccessorElementAt<ElementType>(accessor->componentType,
+			                                                   &accessor->valuesBytes[accessor->valueStride * sparseIdx],
+			                                                   accessor->accessor.normalized);
+		}
+
+		// 5.1.1. accessor.bufferView
+		// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
+		// property or extensions MAY override zeros with actual values.
+		if (!accessor->accessor.bufferViewIndex)
+			return internal::getZeroElement<ElementType>();
+
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
 														   &accessor->bufferBytes[idx * accessor->stride],
 														   accessor->accessor.normalized);
@@ -570,7 +575,7 @@ class IterableAccessor {
 	const Accessor& accessor;
 
 	span<const std::byte> bufferBytes;
-	std::size_t stride;
+	std::size_t stride = 0;
 	fastgltf::ComponentType componentType;
 
 	// Data needed for sparse accessors
@@ -579,7 +584,7 @@ class IterableAccessor {
 	span<const std::byte> valuesBytes;
 	std::size_t indexStride;
 	std::size_t valueStride;
-	std::size_t sparseCount;
+	std::size_t sparseCount = 0;
 
 public:
 	using iterator = AccessorIterator<ElementType, BufferDataAdapter>;
@@ -588,12 +593,14 @@ public:
 		assert(accessor.type == ElementTraits<ElementType>::type && "The destination type needs to have the same AccessorType as the accessor.");
 		componentType = accessor.componentType;
 
-		const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
-		stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
+		if (accessor.bufferViewIndex) {
+			const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
+			stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
 
-		bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+			bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+		}
 
-		if (accessor.sparse.has_value()) {
+		if (accessor.sparse && accessor.sparse->count > 0) {
 			indicesBytes = adapter(asset, accessor.sparse->indicesBufferView).subspan(accessor.sparse->indicesByteOffset);
 
 			indexStride = getElementByteSize(AccessorType::Scalar, accessor.sparse->indexComponentType);
-- 
2.43.0


From d4b1f0acb0431aed681e7091f06f2cfe341b6470 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 44/90] fix: copyComponentsFromAccessor places components by
 their destination type and handles missing data

---
 include/fastgltf/tools.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 6965216..d02d41e 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -874,6 +874,16 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	auto elemSize = getElementByteSize(accessor.type, accessor.componentType);
 	auto componentCount = getNumComponents(accessor.type);
 
+	// The components are written without any padding.
+	auto dstStride = componentCount * sizeof(ComponentType);
+
+	// 5.1.1. accessor.bufferView
+	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros.
+	if (!accessor.bufferViewIndex) {
+		std::memset(dest, 0, dstStride * accessor.count);
+		return;
+	}
+
 	auto& view = asset.bufferViews[*accessor.bufferViewIndex];
 	auto srcStride = view.byteStride.value_or(elemSize);
 
@@ -890,7 +900,7 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	} else {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			for (std::size_t j = 0; j < componentCount; ++j) {
-				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes + elemSize * i) + j;
+				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes + dstStride * i) + j;
 				*pDest = internal::getAccessorComponentAt<ComponentType>(
 					accessor.componentType, accessor.type, &srcBytes[i * srcStride], j, accessor.normalized);
 			}
-- 
2.43.0


From 584098074011608f1dcb5c2b219713a5b3f48038 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 45/90] fix: StaticVector::fromVector copies all bytes of its
 elements

---
 include/fastgltf/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index ad9706e..ac878f0 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -628,7 +628,7 @@ namespace fastgltf {
 		static StaticVector<T> fromVector(std::vector<T> vector) {
 			StaticVector<T> staticVector(vector.size());
 			if constexpr (std::is_trivially_copyable_v<T>) {
-				std::memcpy(staticVector.data(), vector.data(), vector.size());
+				std::memcpy(staticVector.data(), vector.data(), vector.size() * sizeof(T));
 			} else {
 				for (auto it = vector.begin(); it != vector.end(); ++it) {
 					staticVector[std::distance(vector.begin(), it)] = *it;
-- 
2.43.0


From 2efbe5b6e44ddcfb7cd9c6cad93c6104c52072c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 46/90] fix: a moved-from StaticVector is empty

---
 include/fastgltf/types.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index ac878f0..93dbeb6 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -613,12 +613,14 @@ namespace fastgltf {
 
         StaticVector(StaticVector&& other) noexcept {
             _array = std::move(other._array);
-            _size = other.size();
+            _size = std::exchange(other._size, 0);
         }
 
 		StaticVector& operator=(StaticVector&& other) noexcept {
-			_array = std::move(other._array);
-			_size = other.size();
+			if (std::addressof(other) != this) {
+				_array = std::move(other._array);
+				_size = std::exchange(other._size, 0);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From fa804d225f6ece78525c1b15a5dffd53b4cf4780 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 47/90] fix: StaticVector compares elements instead of their
 bytes

---
 include/fastgltf/types.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 93dbeb6..33f329b 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -585,6 +585,14 @@ namespace fastgltf {
             }
         }
 
+		bool equals(const T* other) const {
+			if constexpr (std::has_unique_object_representations_v<T>) {
+				return empty() || std::memcmp(data(), other, size_bytes()) == 0;
+			} else {
+				return std::equal(begin(), end(), other);
+			}
+		}
+
     public:
 		using reference = value_type&;
 		using const_reference = const value_type&;
@@ -677,13 +685,13 @@ namespace fastgltf {
 
         bool operator==(const StaticVector<value_type>& other) const {
             if (other.size() != size()) return false;
-            return std::memcmp(data(), other.data(), size_bytes()) == 0;
+            return equals(other.data());
         }
 
         // This is mostly just here for compatibility and the tests
         bool operator==(const std::vector<value_type>& other) const {
             if (other.size() != size()) return false;
-            return std::memcmp(data(), other.data(), size_bytes()) == 0;
+            return equals(other.data());
         }
     };
 
-- 
2.43.0


From f11fdfd92d55dbe5c6297f38f978b5551592a1de Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 48/90] fix: OptionalWithFlagValue::or_else returns an optional

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 33f329b..9030414 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1340,12 +1340,12 @@ namespace fastgltf {
 		}
 
 		template <typename F>
-		[[nodiscard]] T or_else(F&& func) const& {
+		[[nodiscard]] OptionalWithFlagValue or_else(F&& func) const& {
 			return *this ? *this : std::invoke(std::forward<F>(func));
 		}
 
 		template <typename F>
-		[[nodiscard]] T or_else(F&& func)&& {
+		[[nodiscard]] OptionalWithFlagValue or_else(F&& func)&& {
 			return *this ? std::move(*this) : std::invoke(std::forward<F>(func));
 		}
 
-- 
2.43.0


From e5abedfe070bb40c2e0c19613025133f48ff7be7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 49/90] fix: converting an expiring OptionalWithFlagValue does
 not return a dangling reference

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 9030414..c73992f 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1408,11 +1408,11 @@ namespace fastgltf {
 			return std::move(_value);
 		}
 
-		operator std::optional<T>() const noexcept {
+		operator std::optional<T>() const& noexcept {
 			return has_value() ? std::optional<T>(_value) : std::nullopt;
 		}
 
-		operator std::optional<T>&&()&& noexcept {
+		operator std::optional<T>()&& noexcept {
 			return has_value() ? std::optional<T>(std::move(_value)) : std::nullopt;
 		}
 	};
-- 
2.43.0


From a4b215472fcf408f384bb15c0bf1055449af3d2a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 50/90] fix: SmallVector::clear resets the capacity when
 returning to the inline storage

---
 include/fastgltf/types.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index c73992f..6ef37e4 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -987,9 +987,10 @@ namespace fastgltf {
 		void clear() noexcept {
 			std::destroy(begin(), end());
 
-			if (!isUsingStack() && size() != 0) {
+			if (!isUsingStack()) {
 				allocator.deallocate(_data, _capacity);
 				_data = reinterpret_cast<T*>(storage.data());
+				_capacity = N;
 			}
 
 			_size = 0;
-- 
2.43.0


From af4326ab0de2df4626f3a5b3f52cd559b474cf56 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 51/90] fix: SmallVector::reserve frees the old allocation of
 an empty vector

---
 include/fastgltf/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 6ef37e4..b58cfba 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -877,7 +877,7 @@ namespace fastgltf {
 			// Destroy all objects in the old allocation
 			std::destroy(begin(), end());
 
-            if (!isUsingStack() && _data && size() != 0) {
+            if (!isUsingStack() && _data) {
 				allocator.deallocate(_data, _capacity);
             }
 
-- 
2.43.0


From a037c996d7669d5553d0c808976f77995e7c0197 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 52/90] fix: SmallVector::shrink_to_fit constructs elements in
 the inline storage and frees the heap

---
 include/fastgltf/types.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index b58cfba..8d10700 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -732,6 +732,17 @@ namespace fastgltf {
             }
         }
 
+		// Constructs count objects in the uninitialized memory at result from the objects at first.
+		static void moveElements(T* first, std::size_t count, T* result) {
+			for (std::size_t i = 0; i < count; ++i) {
+				if constexpr (std::is_nothrow_move_constructible_v<T> || !std::is_copy_constructible_v<T>) {
+					new(result + i) T(std::move(first[i]));
+				} else {
+					new(result + i) T(first[i]);
+				}
+			}
+		}
+
     public:
 		using iterator = T*;
 		using const_iterator = const T*;
@@ -944,8 +955,13 @@ namespace fastgltf {
 
 			// If we can use the object's memory again, we'll copy everything over.
 			if (size() <= N) {
-				copy(begin(), size(), reinterpret_cast<T*>(storage.data()));
-				_data = reinterpret_cast<T*>(storage.data());
+				if (!isUsingStack()) {
+					auto* old = _data;
+					_data = reinterpret_cast<T*>(storage.data());
+					moveElements(old, _size, _data);
+					std::destroy(old, old + _size);
+					allocator.deallocate(old, _capacity);
+				}
 			} else {
 				// We have to use heap allocated memory.
 				auto* alloc = allocator.allocate(size());
-- 
2.43.0


From b80dc5beca97c1f49724b28c84b1487ec33eeb1c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 53/90] fix: moving a SmallVector releases, destroys and
 empties what it has to

---
 include/fastgltf/types.hpp | 45 +++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 8d10700..24ea051 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -743,6 +743,20 @@ namespace fastgltf {
 			}
 		}
 
+		// Moves the contents of other into this vector, which has to be empty and use its inline storage.
+		void take(SmallVector& other) {
+			if (!other.isUsingStack() && allocator == other.allocator) {
+				_data = std::exchange(other._data, reinterpret_cast<T*>(other.storage.data()));
+				_size = std::exchange(other._size, 0);
+				_capacity = std::exchange(other._capacity, N);
+			} else {
+				reserve(other.size());
+				moveElements(other.begin(), other.size(), begin());
+				_size = other.size();
+				other.clear();
+			}
+		}
+
     public:
 		using iterator = T*;
 		using const_iterator = const T*;
@@ -768,20 +782,8 @@ namespace fastgltf {
             copy(other.begin(), other.size(), begin());
         }
 
-        SmallVector(SmallVector&& other) noexcept : _data(reinterpret_cast<T*>(storage.data())) {
-            if (other.isUsingStack()) {
-                if (!other.empty()) {
-                    resize(other.size());
-                    copy(other.begin(), other.size(), begin());
-                    other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                    _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
-                }
-            } else {
-                _data = std::exchange(other._data, nullptr);
-                _size = std::exchange(other._size, 0);
-                _capacity = std::exchange(other._capacity, N);
-            }
+        SmallVector(SmallVector&& other) noexcept : allocator(other.allocator), _data(reinterpret_cast<T*>(storage.data())) {
+            take(other);
         }
 
         SmallVector& operator=(const SmallVector& other) {
@@ -801,19 +803,8 @@ namespace fastgltf {
 
         SmallVector& operator=(SmallVector&& other) noexcept {
             if (std::addressof(other) != this) {
-                if (other.isUsingStack()) {
-                    if (!other.empty()) {
-                        resize(other.size());
-                        copy(other.begin(), other.size(), begin());
-                        other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                        _size = std::exchange(other._size, 0);
-                        _capacity = std::exchange(other._capacity, N);
-                    }
-                } else {
-                    _data = std::exchange(other._data, nullptr);
-                    _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
-                }
+                clear();
+                take(other);
             }
             return *this;
         }
-- 
2.43.0


From c24131601795787a08815edee50e505ccbf226d1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 54/90] fix: SmallVector's reverse iterators compile

---
 include/fastgltf/types.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 24ea051..644c040 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -826,12 +826,12 @@ namespace fastgltf {
 	    [[nodiscard]] const_iterator end() const noexcept { return begin() + size(); }
 	    [[nodiscard]] const_iterator cend() const noexcept { return begin() + size(); }
 
-        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<T*> rend() { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return begin(); }
+        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return std::reverse_iterator<T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<T*> rend() { return std::reverse_iterator<T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return std::reverse_iterator<const T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return std::reverse_iterator<const T*>(begin()); }
 
         [[nodiscard]] T* data() noexcept { return _data; }
         [[nodiscard]] const T* data() const noexcept { return _data; }
-- 
2.43.0


From d69fe133a99751a8d9ce7ec1793910c93bfe6b0f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 55/90] fix: move-assigning accessor bounds destroys the
 previous bounds by their own type

---
 include/fastgltf/types.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 644c040..e82f758 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1659,8 +1659,9 @@ namespace fastgltf {
 
 		auto& operator=(const AccessorBoundsArray& other) = delete;
 		auto& operator=(AccessorBoundsArray&& other) noexcept {
-			len = other.len;
-			dataType = other.dataType;
+			if (std::addressof(other) == this) {
+				return *this;
+			}
 			switch (dataType) {
 				case BoundsType::int64:
 					std::destroy_at(&int64_buffer);
@@ -1671,6 +1672,8 @@ namespace fastgltf {
 				default:
 					FASTGLTF_UNREACHABLE
 			}
+			len = other.len;
+			dataType = other.dataType;
 			switch (other.dataType) {
 				case BoundsType::int64:
 					new (&int64_buffer) std::unique_ptr(std::move(other.int64_buffer));
-- 
2.43.0


From 29223025da5e0b624827b78038b63be8da5e90fa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 56/90] fix: bounds start from the first included value instead
 of zero

---
 include/fastgltf/types.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index e82f758..171844c 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -2701,10 +2701,14 @@ namespace fastgltf {
 		 */
 		template <typename T, std::enable_if_t<AccessorBoundsArray::is_valid_type_v<T>, bool> = true>
 		void updateBoundsToInclude(T value) {
-			if (!max)
+			if (!max) {
 				max = AccessorBoundsArray::ForType<T>(1);
-			if (!min)
+				max->set<T>(0, value);
+			}
+			if (!min) {
 				min = AccessorBoundsArray::ForType<T>(1);
+				min->set<T>(0, value);
+			}
 
 			assert(max->isType<T>() && min->isType<T>());
 			assert(max->size() == 1 && min->size() == 1);
@@ -2723,10 +2727,16 @@ namespace fastgltf {
 		 */
 		template <typename T, std::size_t N, std::enable_if_t<AccessorBoundsArray::is_valid_type_v<T>, bool> = true>
 		void updateBoundsToInclude(math::vec<T, N> value) {
-			if (!max)
+			if (!max) {
 				max = AccessorBoundsArray::ForType<T>(value.size());
-			if (!min)
+				for (std::size_t i = 0; i < value.size(); ++i)
+					max->set<T>(i, value[i]);
+			}
+			if (!min) {
 				min = AccessorBoundsArray::ForType<T>(value.size());
+				for (std::size_t i = 0; i < value.size(); ++i)
+					min->set<T>(i, value[i]);
+			}
 
 			assert(max->isType<T>() && min->isType<T>());
 			assert(max->size() == value.size() && min->size() == value.size());
-- 
2.43.0


From 87a2c2e3367785094aee442d0a24c627ffb9702c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 57/90] fix: byteswap compiles before C++23

---
 include/fastgltf/util.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/util.hpp b/include/fastgltf/util.hpp
index a248fd9..2b38ccc 100644
--- a/include/fastgltf/util.hpp
+++ b/include/fastgltf/util.hpp
@@ -412,7 +412,11 @@ namespace fastgltf {
 	auto byteswap(T value) noexcept {
 		static_assert(std::has_unique_object_representations_v<T>, "T may not have padding bits");
 		auto bytes = bit_cast<std::array<std::byte, sizeof(T)>>(value);
-		bytes = decltype(bytes)(bytes.rbegin(), bytes.rend());
+		for (std::size_t i = 0; i < sizeof(T) / 2; ++i) {
+			auto tmp = bytes[i];
+			bytes[i] = bytes[sizeof(T) - 1 - i];
+			bytes[sizeof(T) - 1 - i] = tmp;
+		}
 		return bit_cast<T>(bytes);
 	}
 #endif
-- 
2.43.0


From 3c0ad8ce83de1e153d69f657ae71a13c8fc93e9c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 58/90] fix: the CRC functions read memory and are pure instead
 of const

---
 include/fastgltf/util.hpp | 12 ++++++------
 src/fastgltf.cpp          |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/fastgltf/util.hpp b/include/fastgltf/util.hpp
index 2b38ccc..51e16b8 100644
--- a/include/fastgltf/util.hpp
+++ b/include/fastgltf/util.hpp
@@ -239,14 +239,14 @@ namespace fastgltf {
 		0x79b737ba, 0x8bdcb4b9, 0x988c474d, 0x6ae7c44e, 0xbe2da0a5, 0x4c4623a6, 0x5f16d052, 0xad7d5351,
 	}};
 
-	[[gnu::hot, gnu::const]] constexpr std::uint32_t crc32c(std::string_view str) noexcept {
+	[[gnu::hot, gnu::pure]] constexpr std::uint32_t crc32c(std::string_view str) noexcept {
 		std::uint32_t crc = 0;
 		for (auto c : str)
 			crc = (crc >> 8) ^ crcHashTable[(crc ^ static_cast<std::uint8_t>(c)) & 0xff];
 		return crc;
 	}
 
-	[[gnu::hot, gnu::const]] constexpr std::uint32_t crc32c(const std::uint8_t* d, std::size_t len) noexcept {
+	[[gnu::hot, gnu::pure]] constexpr std::uint32_t crc32c(const std::uint8_t* d, std::size_t len) noexcept {
 		std::uint32_t crc = 0;
 		for (std::size_t i = 0; i < len; ++i)
 			crc = (crc >> 8) ^ crcHashTable[(crc ^ d[i]) & 0xff];
@@ -258,13 +258,13 @@ namespace fastgltf {
 	 * Variant of crc32 that uses SSE4.2 instructions to increase performance. Note that this does not
 	 * check for availability of said instructions.
 	 */
-	[[gnu::hot, gnu::const]] std::uint32_t sse_crc32c(std::string_view str) noexcept;
-	[[gnu::hot, gnu::const]] std::uint32_t sse_crc32c(const std::uint8_t* d, std::size_t len) noexcept;
+	[[gnu::hot, gnu::pure]] std::uint32_t sse_crc32c(std::string_view str) noexcept;
+	[[gnu::hot, gnu::pure]] std::uint32_t sse_crc32c(const std::uint8_t* d, std::size_t len) noexcept;
 #elif defined(FASTGLTF_IS_A64) && !defined(_MSC_VER) && !defined(__ANDROID__)
 	// Both MSVC stdlib and Android NDK don't include the arm intrinsics. TODO: Find a workaround?
 #define FASTGLTF_ENABLE_ARMV8_CRC 1
-	[[gnu::hot, gnu::const]] std::uint32_t armv8_crc32c(std::string_view str) noexcept;
-	[[gnu::hot, gnu::const]] std::uint32_t armv8_crc32c(const std::uint8_t* d, std::size_t len) noexcept;
+	[[gnu::hot, gnu::pure]] std::uint32_t armv8_crc32c(std::string_view str) noexcept;
+	[[gnu::hot, gnu::pure]] std::uint32_t armv8_crc32c(const std::uint8_t* d, std::size_t len) noexcept;
 #endif
 
 	/**
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8a96c57..df44650 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -137,11 +137,11 @@ namespace fastgltf {
 	using CRCStringFunction = std::uint32_t(*)(std::string_view str);
 
 #if defined(FASTGLTF_IS_X86)
-    [[gnu::hot, gnu::const, gnu::target("sse4.2")]] std::uint32_t sse_crc32c(std::string_view str) noexcept {
+    [[gnu::hot, gnu::pure, gnu::target("sse4.2")]] std::uint32_t sse_crc32c(std::string_view str) noexcept {
         return sse_crc32c(reinterpret_cast<const std::uint8_t*>(str.data()), str.size());
     }
 
-    [[gnu::hot, gnu::const, gnu::target("sse4.2")]] std::uint32_t sse_crc32c(const std::uint8_t* d, std::size_t len) noexcept {
+    [[gnu::hot, gnu::pure, gnu::target("sse4.2")]] std::uint32_t sse_crc32c(const std::uint8_t* d, std::size_t len) noexcept {
         std::uint32_t crc = 0;
 
         // Ddecode as much as possible using 4 byte steps.
@@ -168,11 +168,11 @@ namespace fastgltf {
         return crc;
     }
 #elif defined(FASTGLTF_ENABLE_ARMV8_CRC)
-	[[gnu::hot, gnu::const, gnu::target("+crc")]] std::uint32_t armv8_crc32c(std::string_view str) noexcept {
+	[[gnu::hot, gnu::pure, gnu::target("+crc")]] std::uint32_t armv8_crc32c(std::string_view str) noexcept {
 		return armv8_crc32c(reinterpret_cast<const std::uint8_t*>(str.data()), str.size());
 	}
 
-	[[gnu::hot, gnu::const, gnu::target("+crc")]] std::uint32_t armv8_crc32c(const std::uint8_t* d, std::size_t len) noexcept {
+	[[gnu::hot, gnu::pure, gnu::target("+crc")]] std::uint32_t armv8_crc32c(const std::uint8_t* d, std::size_t len) noexcept {
 		std::uint32_t crc = 0;
 
 		// Decrementing the length variable and incrementing the pointer directly has better codegen with Clang
-- 
2.43.0


From afeb4e50aa126b3e0e255f99e02e0519f7b72b3c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 59/90] fix: dividing a quaternion by a scalar divides

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 2112fa6..f874fee 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -514,7 +514,7 @@ namespace fastgltf::math {
 		}
 
 		constexpr auto operator/(T scalar) const noexcept {
-			return quat<T>(*this) *= scalar;
+			return quat<T>(*this) /= scalar;
 		}
 		constexpr auto operator/=(T scalar) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
-- 
2.43.0


From e2964e41c7c0a9e1904c15b28d0b6997ae4b9d60 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 60/90] fix: non-square matrices are filled column by column

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index f874fee..ef5c0e1 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -629,7 +629,7 @@ namespace fastgltf::math {
 
 		template <typename... Args, std::size_t... i>
 		constexpr void copy_values(const std::tuple<Args...>& tuple, std::integer_sequence<std::size_t, i...>) noexcept {
-			(..., (_data[i / M][i % N] = std::get<i>(std::move(tuple))));
+			(..., (_data[i / N][i % N] = std::get<i>(std::move(tuple))));
 		}
 
 	public:
-- 
2.43.0


From c124acd36f785298668c6876a7ebb42c71d8945e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 61/90] fix: comparing non-square matrices compares every
 column

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index ef5c0e1..2c2b617 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -717,7 +717,7 @@ namespace fastgltf::math {
 		}
 
 		[[nodiscard]] constexpr bool operator==(const mat<T, N, M>& other) const noexcept {
-			for (std::size_t i = 0; i < N; ++i)
+			for (std::size_t i = 0; i < columns(); ++i)
 				if (col(i) != other.col(i))
 					return false;
 			return true;
-- 
2.43.0


From 491e21464997fadde0d2626939dfb93119032183 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 62/90] fix: a non-square matrix times a vector has one
 component per row

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 2c2b617..116046f 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -740,7 +740,7 @@ namespace fastgltf::math {
 			return ret;
 		}
 		constexpr auto operator*(vec<T, M> other) const noexcept {
-			vec<T, M> ret = col(0) * other[0];
+			vec<T, N> ret = col(0) * other[0];
 			for (std::size_t i = 1; i < columns(); ++i)
 				ret += col(i) * other[i];
 			return ret;
-- 
2.43.0


From c8809e025ef3800766e2bbf5b814b96ab26e5ff3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 63/90] fix: a vec made from a shorter initializer list is zero
 filled

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 116046f..c6512b2 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -133,7 +133,7 @@ namespace fastgltf::math {
 			return *this;
 		}
 
-		constexpr vec(std::initializer_list<T> list) noexcept {
+		constexpr vec(std::initializer_list<T> list) noexcept : _data() {
 			for (auto it = std::begin(list); it != std::end(list); ++it)
 				(*this)[std::distance(std::begin(list), it)] = *it;
 		}
-- 
2.43.0


From d08f4ff55e9325bfe4caf723b93e3d69897f8cd1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 64/90] fix: compound assignment and prefix operators return
 the object itself

---
 include/fastgltf/math.hpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index c6512b2..286995c 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -206,7 +206,7 @@ namespace fastgltf::math {
 		constexpr auto operator*(T scalar) const noexcept {
 			return vec<T, N>(*this) *= scalar;
 		}
-		constexpr auto operator*=(T scalar) noexcept {
+		constexpr auto& operator*=(T scalar) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] *= scalar;
 			return *this;
@@ -214,7 +214,7 @@ namespace fastgltf::math {
 		constexpr auto operator*(const vec<T, N>& other) const noexcept {
 			return vec<T, N>(*this) *= other;
 		}
-		constexpr auto operator*=(const vec<T, N>& other) noexcept {
+		constexpr auto& operator*=(const vec<T, N>& other) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] *= other[i];
 			return *this;
@@ -223,7 +223,7 @@ namespace fastgltf::math {
 		constexpr auto operator/(T scalar) const noexcept {
 			return vec<T, N>(*this) /= scalar;
 		}
-		constexpr auto operator/=(T scalar) noexcept {
+		constexpr auto& operator/=(T scalar) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] /= scalar;
 			return *this;
@@ -231,7 +231,7 @@ namespace fastgltf::math {
 		constexpr auto operator/(const vec<T, N>& other) const noexcept {
 			return vec<T, N>(*this) /= other;
 		}
-		constexpr auto operator/=(const vec<T, N>& other) noexcept {
+		constexpr auto& operator/=(const vec<T, N>& other) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] /= other[i];
 			return *this;
@@ -246,7 +246,7 @@ namespace fastgltf::math {
 		constexpr auto operator+(T scalar) const noexcept {
 			return vec<T, N>(*this) += scalar;
 		}
-		constexpr auto operator+=(T scalar) noexcept {
+		constexpr auto& operator+=(T scalar) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] += scalar;
 			return *this;
@@ -254,14 +254,15 @@ namespace fastgltf::math {
 		constexpr auto operator+(const vec<T, N>& other) const noexcept {
 			return vec<T, N>(*this) += other;
 		}
-		constexpr auto operator+=(const vec<T, N>& other) noexcept {
+		constexpr auto& operator+=(const vec<T, N>& other) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] += other[i];
 			return *this;
 		}
-		constexpr auto operator++() noexcept {
+		constexpr auto& operator++() noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i]++;
+			return *this;
 		}
 		constexpr auto operator++(int) noexcept {
 			vec<T, N> ret(*this);
@@ -278,7 +279,7 @@ namespace fastgltf::math {
 		constexpr auto operator-(T scalar) const noexcept {
 			return vec<T, N>(*this) -= scalar;
 		}
-		constexpr auto operator-=(T scalar) noexcept {
+		constexpr auto& operator-=(T scalar) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] -= scalar;
 			return *this;
@@ -286,14 +287,15 @@ namespace fastgltf::math {
 		constexpr auto operator-(const vec<T, N>& other) const noexcept {
 			return vec<T, N>(*this) -= other;
 		}
-		constexpr auto operator-=(const vec<T, N>& other) noexcept {
+		constexpr auto& operator-=(const vec<T, N>& other) noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i] -= other[i];
 			return *this;
 		}
-		constexpr auto operator--() noexcept {
+		constexpr auto& operator--() noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i]--;
+			return *this;
 		}
 		constexpr auto operator--(int) noexcept {
 			vec<T, N> ret(*this);
@@ -507,7 +509,7 @@ namespace fastgltf::math {
 		constexpr auto operator*(T scalar) const noexcept {
 			return quat<T>(*this) *= scalar;
 		}
-		constexpr auto operator*=(T scalar) noexcept {
+		constexpr auto& operator*=(T scalar) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
 				(*this)[i] *= scalar;
 			return *this;
@@ -516,7 +518,7 @@ namespace fastgltf::math {
 		constexpr auto operator/(T scalar) const noexcept {
 			return quat<T>(*this) /= scalar;
 		}
-		constexpr auto operator/=(T scalar) noexcept {
+		constexpr auto& operator/=(T scalar) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
 				(*this)[i] /= scalar;
 			return *this;
@@ -531,7 +533,7 @@ namespace fastgltf::math {
 		constexpr auto operator+(const quat<T>& other) const noexcept {
 			return quat<T>(*this) += other;
 		}
-		constexpr auto operator+=(const quat<T>& other) noexcept {
+		constexpr auto& operator+=(const quat<T>& other) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
 				(*this)[i] += other[i];
 			return *this;
@@ -546,7 +548,7 @@ namespace fastgltf::math {
 		constexpr auto operator-(const quat<T>& other) const noexcept {
 			return quat<T>(*this) -= other;
 		}
-		constexpr auto operator-=(const quat<T>& other) noexcept {
+		constexpr auto& operator-=(const quat<T>& other) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
 				(*this)[i] -= other[i];
 			return *this;
-- 
2.43.0


From bd2d2fe1f79b45d41ca804f952fb27150fbeae27 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 65/90] fix: decomposing a mirroring matrix yields a negative
 scale

---
 include/fastgltf/math.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 286995c..3b3f814 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -936,6 +936,12 @@ namespace fastgltf::math {
 		matrix.col(1) /= scale.y();
 		matrix.col(2) /= scale.z();
 
+		// A rotation never mirrors, so a mirroring matrix has a negative scale along one of its axes.
+		if (determinant(fmat3x3(matrix)) < 0.f) {
+			scale.x() = -scale.x();
+			matrix.col(0) = -matrix.col(0);
+		}
+
 		// Construct the quaternion. This algo is copied from here:
 		// https://www.euclideanspace.com/maths/geometry/rotations/conversions/matrixToQuaternion/christian.htm.
 		// glTF orders the components as x,y,z,w
-- 
2.43.0


From 4b0b66d64cbd26165f140a6bf78cc38385943bda Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 66/90] fix: decomposing a rotation by half a turn keeps the
 axis

---
 include/fastgltf/math.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 3b3f814..d10dacd 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -959,6 +959,20 @@ namespace fastgltf::math {
 		rotation.x() = std::copysignf(rotation.x(), matrix[1][2] - matrix[2][1]);
 		rotation.y() = std::copysignf(rotation.y(), matrix[2][0] - matrix[0][2]);
 		rotation.z() = std::copysignf(rotation.z(), matrix[0][1] - matrix[1][0]);
+
+		// These differences are products with W and vanish together with it for rotations by half a turn. The signs
+		// relative to the largest component are then given by the sums, which are the products with that component.
+		const fvec3 magnitude(std::abs(rotation.x()), std::abs(rotation.y()), std::abs(rotation.z()));
+		if (magnitude.x() > rotation.w() && magnitude.x() >= magnitude.y() && magnitude.x() >= magnitude.z()) {
+			rotation.y() = std::copysignf(magnitude.y(), (matrix[0][1] + matrix[1][0]) * rotation.x());
+			rotation.z() = std::copysignf(magnitude.z(), (matrix[2][0] + matrix[0][2]) * rotation.x());
+		} else if (magnitude.y() > rotation.w() && magnitude.y() >= magnitude.z()) {
+			rotation.x() = std::copysignf(magnitude.x(), (matrix[0][1] + matrix[1][0]) * rotation.y());
+			rotation.z() = std::copysignf(magnitude.z(), (matrix[1][2] + matrix[2][1]) * rotation.y());
+		} else if (magnitude.z() > rotation.w()) {
+			rotation.x() = std::copysignf(magnitude.x(), (matrix[2][0] + matrix[0][2]) * rotation.z());
+			rotation.y() = std::copysignf(magnitude.y(), (matrix[1][2] + matrix[2][1]) * rotation.z());
+		}
 	}
 } // namespace fastgltf::math
 
-- 
2.43.0


From a2f2403d2ac6e5879105baa10c16f5dd4d3f8a69 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 67/90] fix: decomposing a matrix with a scale of zero yields a
 finite rotation

---
 include/fastgltf/math.hpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index d10dacd..05a426e 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -932,9 +932,34 @@ namespace fastgltf::math {
 
 		// Remove the scaling from the matrix, leaving only the rotation.
 		// matrix is now the rotation matrix.
-		matrix.col(0) /= scale.x();
-		matrix.col(1) /= scale.y();
-		matrix.col(2) /= scale.z();
+		std::size_t flat = 0;
+		for (std::size_t i = 0; i < 3; ++i) {
+			if (scale[i] == 0.f)
+				++flat;
+			else
+				matrix.col(i) /= scale[i];
+		}
+
+		// An axis scaled by zero has no direction left, so the rotation is completed from the other axes.
+		const auto completeAxis = [&](std::size_t i) {
+			const auto axis = cross(fvec3(matrix.col((i + 1) % 3)), fvec3(matrix.col((i + 2) % 3)));
+			matrix.col(i) = fvec4(axis.x(), axis.y(), axis.z(), 0.f);
+		};
+		if (flat == 3) {
+			matrix = fmat4x4();
+		} else if (flat != 0) {
+			if (flat == 2) {
+				// Pick any direction perpendicular to the only axis left.
+				const std::size_t i = scale[0] != 0.f ? 0 : scale[1] != 0.f ? 1 : 2;
+				const auto axis = fvec3(matrix.col(i));
+				const auto other = std::abs(axis.x()) < std::abs(axis.y()) ? fvec3(1.f, 0.f, 0.f) : fvec3(0.f, 1.f, 0.f);
+				const auto perpendicular = normalize(cross(axis, other));
+				matrix.col((i + 1) % 3) = fvec4(perpendicular.x(), perpendicular.y(), perpendicular.z(), 0.f);
+				completeAxis((i + 2) % 3);
+			} else {
+				completeAxis(scale[0] == 0.f ? 0 : scale[1] == 0.f ? 1 : 2);
+			}
+		}
 
 		// A rotation never mirrors, so a mirroring matrix has a negative scale along one of its axes.
 		if (determinant(fmat3x3(matrix)) < 0.f) {
-- 
2.43.0


From a2d6d77fcc9a19208ed97883514642a6c6277707 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 68/90] fix: GltfDataBuffer reports files that cannot be read
 completely

---
 src/io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index ccdf214..6a90783 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -63,6 +63,10 @@ fg::GltfDataBuffer::GltfDataBuffer(const fs::path& path) noexcept {
 	if (buffer != nullptr) {
 		// Copy the data and fill the padding region with zeros.
 		file.read(reinterpret_cast<std::ifstream::char_type*>(buffer.get()), static_cast<std::streamsize>(dataSize));
+		if (!file) {
+			error = Error::InvalidFileData;
+			return;
+		}
 		std::memset(buffer.get() + dataSize, 0, allocatedSize - dataSize);
 	} else {
 		error = Error::FileBufferAllocationFailed;
-- 
2.43.0


From 87fd75f43a6476702e9f33d3f69fe9b999b03f19 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 69/90] fix: GltfFileStream does not throw for missing files

---
 src/io.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io.cpp b/src/io.cpp
index 6a90783..a6eab8d 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -123,7 +123,12 @@ std::size_t fg::GltfDataBuffer::totalSize() {
 }
 
 fg::GltfFileStream::GltfFileStream(const fs::path& path) : fileStream(path, std::ios::binary) {
-	fileSize = fs::file_size(path);
+	std::error_code ec;
+	fileSize = fs::file_size(path, ec);
+	if (ec) {
+		// For a file that does not exist isOpen() returns false.
+		fileSize = 0;
+	}
 }
 
 bool fg::GltfFileStream::isOpen() const {
-- 
2.43.0


From 9971be2dcfb4eaccbf406f4a185d3635303d588c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 70/90] fix: external files that cannot be read completely are
 reported

---
 src/io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index a6eab8d..2e111b7 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -464,6 +464,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 	}
 
 	std::ifstream file(path, std::ios::binary);
+	if (!file.is_open()) {
+		return Error::MissingExternalBuffer;
+	}
 
 	if (config.mapCallback != nullptr) {
 		auto info = config.mapCallback(static_cast<std::uint64_t>(length), config.userPointer);
@@ -474,12 +477,18 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 				config.unmapCallback(&info, config.userPointer);
 			}
 
+			if (!file) {
+				return Error::MissingExternalBuffer;
+			}
 			return { customBufferSource };
 		}
 	}
 
 	StaticVector<std::byte> data(static_cast<std::size_t>(length));
 	file.read(reinterpret_cast<char*>(data.data()), length);
+	if (!file) {
+		return Error::MissingExternalBuffer;
+	}
 	sources::Array arraySource {
 		std::move(data),
 	};
-- 
2.43.0


From 2a6088c723eb7d9ee46e73837ce1f8725b5fdda9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 71/90] fix: percent-encoded characters of a file name are not
 read as URI syntax

---
 src/io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 2e111b7..06bae54 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -424,7 +424,8 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromApk(const fs::path& path) c
 #endif
 
 fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noexcept {
-	URI decodedUri(uri.path()); // Re-allocate so we can decode potential characters.
+	std::string decodedPath(uri.path()); // Re-allocate so we can decode potential characters.
+	URI::decodePercents(decodedPath);
 	// JSON strings are always in UTF-8, so we can safely always use u8path here.
 	// Since u8path is deprecated with C++20 and newer, u8path is deprecated.
 	// As there is no other proper solution that doesn't do something illegal,
@@ -436,7 +437,7 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 #pragma warning(push)
 #pragma warning(disable : 4996)
 #endif
-	auto path = directory / fs::u8path(decodedUri.path());
+	auto path = directory / fs::u8path(decodedPath);
 #if defined(__GNUC__) || defined(__clang__)
 #pragma GCC diagnostic pop
 #elif defined(_MSC_VER)
-- 
2.43.0


From 45c6eacc6e48d45521067f4a13ef797765a37aff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 72/90] fix: FileExporter writes to the current directory if
 the target has no parent path

---
 src/fastgltf.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index df44650..5e7da7c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7344,9 +7344,10 @@ namespace fastgltf {
 	bool writeFile(const DataSource& dataSource, const fs::path& baseFolder, const fs::path& filePath) {
 		// Get the final normalized path. TODO: Perhaps move these filesystem checks to the parent function?
 		auto finalPath = (baseFolder / filePath).lexically_normal();
-		if (std::error_code ec; !fs::exists(finalPath.parent_path(), ec) || ec) {
+		const auto folder = finalPath.parent_path();
+		if (std::error_code ec; !folder.empty() && (!fs::exists(folder, ec) || ec)) {
 			// If the parent folder of the destination file does not exist, we'll create it.
-			fs::create_directory(finalPath.parent_path(), ec);
+			fs::create_directory(folder, ec);
 			if (ec) {
 				return false;
 			}
@@ -7408,8 +7409,9 @@ namespace fastgltf {
 } // namespace fastgltf
 
 fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
+	const auto folder = target.parent_path();
+	if (std::error_code ec; !folder.empty() && (!fs::exists(folder, ec) || ec)) {
+		fs::create_directory(folder, ec);
 		if (ec) {
 			return Error::InvalidPath;
 		}
@@ -7437,8 +7439,9 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 }
 
 fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
+	const auto folder = target.parent_path();
+	if (std::error_code ec; !folder.empty() && (!fs::exists(folder, ec) || ec)) {
+		fs::create_directory(folder, ec);
 		if (ec) {
 			return Error::InvalidPath;
 		}
-- 
2.43.0


From 9790c9feb44176147723b60f44f08af1e36bef42 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 73/90] fix: FileExporter reports a target file that cannot be
 written

---
 src/fastgltf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5e7da7c..6e0ee9b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7431,6 +7431,9 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 
     file << result.output;
     file.close();
+    if (!file) {
+        return Error::FailedWritingFiles;
+    }
 
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
@@ -7461,6 +7464,10 @@ fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path&
 
     file.write(reinterpret_cast<const char*>(result.output.data()),
                static_cast<std::streamsize>(result.output.size()));
+    file.close();
+    if (!file) {
+        return Error::FailedWritingFiles;
+    }
 
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
-- 
2.43.0


From 5b3632ca553f66753d213b46dcee2b55bde99881 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 74/90] fix: URIs of written files percent-encode the
 characters reserved in URIs

---
 src/fastgltf.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6e0ee9b..8737c96 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5185,10 +5185,19 @@ namespace fastgltf {
 
 	/**
 	 * Normalizes the path using lexically_normal, calls generic_string to always use forward slashes,
-	 * and escapes any necessary characters.
+	 * percent-encodes the characters that have a meaning in URIs, and escapes any necessary characters.
 	 */
 	static std::string normalizeAndFormatPath(const fs::path& path) {
-		auto string = path.lexically_normal().generic_string();
+		std::string string;
+		for (const auto c : path.lexically_normal().generic_string()) {
+			switch (c) {
+				case '%': string += "%25"; break;
+				case ':': string += "%3A"; break;
+				case '?': string += "%3F"; break;
+				case '#': string += "%23"; break;
+				default: string += c; break;
+			}
+		}
 		escapeString(string);
 		return string;
 	}
-- 
2.43.0


From 2c4c7c637fcde4d714400078b55d08b8bae23d6c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 75/90] fix: every buffer and image is written to a file of its
 own

---
 src/fastgltf.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8737c96..0bf640c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7102,12 +7102,27 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
     json += '}';
 }
 
+namespace fastgltf {
+	// Appends the extension to the name. If another buffer or image already uses that path, also appends a number to the name.
+	static fs::path getUniqueFilePath(const fs::path& folder, const std::string& name, std::string_view extension,
+									  const std::vector<std::optional<fs::path>>& bufferPaths,
+									  const std::vector<std::optional<fs::path>>& imagePaths) {
+		auto path = folder / (name + std::string(extension));
+		const auto isUsed = [&](const auto& other) {
+			return other.has_value() && other->lexically_normal() == path.lexically_normal();
+		};
+		for (std::size_t i = 1; std::any_of(bufferPaths.begin(), bufferPaths.end(), isUsed)
+				|| std::any_of(imagePaths.begin(), imagePaths.end(), isUsed); ++i) {
+			path = folder / (name + "_" + std::to_string(i) + std::string(extension));
+		}
+		return path;
+	}
+} // namespace fastgltf
+
 fs::path fg::Exporter::getBufferFilePath(const Asset& asset, std::size_t index) {
     const auto& bufferName = asset.buffers[index].name;
-    if (bufferName.empty()) {
-        return bufferFolder / ("buffer" + std::to_string(index) + ".bin");
-    }
-	return bufferFolder / (bufferName + ".bin");
+    const auto name = bufferName.empty() ? "buffer" + std::to_string(index) : std::string(bufferName);
+    return getUniqueFilePath(bufferFolder, name, ".bin", bufferPaths, imagePaths);
 }
 
 fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, MimeType mimeType) {
@@ -7134,10 +7149,8 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
     }
 
     const auto& imageName = asset.images[index].name;
-	if (imageName.empty()) {
-		return imageFolder / ("image" + std::to_string(index) + std::string(extension));
-	}
-	return imageFolder / (std::string(imageName) + std::string(extension));
+    const auto name = imageName.empty() ? "image" + std::to_string(index) : std::string(imageName);
+    return getUniqueFilePath(imageFolder, name, extension, bufferPaths, imagePaths);
 }
 
 std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
-- 
2.43.0


From c9379fbb413b4f5fdfd326f8ceb957a7c48ac795 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 76/90] fix: exported URIs keep percent signs

---
 src/fastgltf.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0bf640c..c012e41 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5202,6 +5202,22 @@ namespace fastgltf {
 		return string;
 	}
 
+	/**
+	 * The string of a URI has its percent-encoded characters decoded, so that its percent signs have to be encoded.
+	 */
+	static std::string formatUri(const URI& uri) {
+		std::string string;
+		for (const auto c : uri.string()) {
+			if (c == '%') {
+				string += "%25";
+			} else {
+				string += c;
+			}
+		}
+		escapeString(string);
+		return string;
+	}
+
 	// replacement for std::to_string that uses simdjson's grisu2 implementation, which is
 	// (1) bidirectionally lossless (std::to_string is not)
 	// (2) quite a lot faster than std::to_chars and std::to_string.
@@ -5499,7 +5515,7 @@ void fg::Exporter::writeBuffers(const Asset& asset, std::string& json) {
                 bufferPaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"' + ',';
+				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"' + ',';
                 bufferPaths.emplace_back(std::nullopt);
 			},
 			[&]([[maybe_unused]] const sources::Fallback& fallback) {
@@ -5693,7 +5709,7 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 				imagePaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
+				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"';
 				if (uri.mimeType != MimeType::None) {
 					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
 				}
-- 
2.43.0


From 30c4e60fbd9d60268998bd9b3899c71710a94178 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 77/90] fix: report members of texture references that have the
 wrong kind

---
 src/fastgltf.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c012e41..c1b33b8 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -346,23 +346,29 @@ namespace fastgltf {
 		}
 
 		dom::object extensionsObject;
-		if (child["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
+		if (auto kindError = child["extensions"].get_object().get(extensionsObject); kindError == SUCCESS) FASTGLTF_LIKELY {
 			dom::object textureTransform;
-			if (hasBit(extensions, Extensions::KHR_texture_transform) && extensionsObject[extensions::KHR_texture_transform].get_object().get(textureTransform) == SUCCESS) FASTGLTF_LIKELY {
+			auto transformError = !hasBit(extensions, Extensions::KHR_texture_transform) ? NO_SUCH_FIELD
+				: extensionsObject[extensions::KHR_texture_transform].get_object().get(textureTransform);
+			if (transformError == SUCCESS) FASTGLTF_LIKELY {
 				auto transform = std::make_unique<TextureTransform>();
 				transform->rotation = 0.0F;
 
-				if (textureTransform["texCoord"].get_uint64().get(index) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto kindError = textureTransform["texCoord"].get_uint64().get(index); kindError == SUCCESS) FASTGLTF_LIKELY {
 					transform->texCoordIndex = index;
+				} else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				double rotation = 0.0F;
-				if (textureTransform["rotation"].get_double().get(rotation) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto kindError = textureTransform["rotation"].get_double().get(rotation); kindError == SUCCESS) FASTGLTF_LIKELY {
 					transform->rotation = static_cast<num>(rotation);
+				} else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				dom::array array;
-				if (textureTransform["offset"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto kindError = textureTransform["offset"].get_array().get(array); kindError == SUCCESS) FASTGLTF_LIKELY {
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -370,9 +376,11 @@ namespace fastgltf {
 						}
 						transform->uvOffset[i] = static_cast<num>(val);
 					}
+				} else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
-				if (textureTransform["scale"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto kindError = textureTransform["scale"].get_array().get(array); kindError == SUCCESS) FASTGLTF_LIKELY {
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -380,10 +388,16 @@ namespace fastgltf {
 						}
 						transform->uvScale[i] = static_cast<num>(val);
 					}
+				} else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				info->transform = std::move(transform);
+			} else if (transformError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
+		} else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		return Error::None;
-- 
2.43.0


From 192b0803cf65809c4e8820f8b13097231086bb09 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:24:40 +0000
Subject: [PATCH 78/90] fix: report accessors whose buffer view or sparse
 member has the wrong kind

---
 src/fastgltf.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c1b33b8..3d0fe4c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1766,8 +1766,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 
 
         std::uint64_t bufferView;
-        if (accessorObject["bufferView"].get_uint64().get(bufferView) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto kindError = accessorObject["bufferView"].get_uint64().get(bufferView); kindError == SUCCESS) FASTGLTF_LIKELY {
             accessor.bufferViewIndex = static_cast<std::size_t>(bufferView);
+        } else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         // byteOffset is optional, but defaults to 0
@@ -1878,7 +1880,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		}
 
         dom::object sparseAccessorObject;
-        if (accessorObject["sparse"].get_object().get(sparseAccessorObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto kindError = accessorObject["sparse"].get_object().get(sparseAccessorObject); kindError == SUCCESS) FASTGLTF_LIKELY {
             SparseAccessor sparse = {};
             std::uint64_t value;
             dom::object child;
@@ -1928,6 +1930,8 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             }
 
             accessor.sparse = sparse;
+        } else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
-- 
2.43.0


From cdb12543abfbbdf03492baa9667f0a582606cbd5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:24:40 +0000
Subject: [PATCH 79/90] fix: report compressed buffer views whose extension is
 not an object

---
 src/fastgltf.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3d0fe4c..19b8bac 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2230,9 +2230,11 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
         }
 
         dom::object extensionObject;
-        if (bufferViewObject["extensions"].get_object().get(extensionObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto kindError = bufferViewObject["extensions"].get_object().get(extensionObject); kindError == SUCCESS) FASTGLTF_LIKELY {
             dom::object meshoptCompression;
-            if (hasBit(config.extensions, Extensions::EXT_meshopt_compression) && extensionObject[extensions::EXT_meshopt_compression].get_object().get(meshoptCompression) == SUCCESS) FASTGLTF_LIKELY {
+            auto compressionError = !hasBit(config.extensions, Extensions::EXT_meshopt_compression) ? NO_SUCH_FIELD
+                : extensionObject[extensions::EXT_meshopt_compression].get_object().get(meshoptCompression);
+            if (compressionError == SUCCESS) FASTGLTF_LIKELY {
                 auto compression = std::make_unique<CompressedBufferView>();
 
                 if (auto error = meshoptCompression["buffer"].get_uint64().get(number); error != SUCCESS) FASTGLTF_UNLIKELY {
@@ -2313,7 +2315,11 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
                 }
 
                 view.meshoptCompression = std::move(compression);
+            } else if (compressionError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
+        } else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
-- 
2.43.0


From af6b4aa8af336f137667950c02104ef01323d37d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:24:40 +0000
Subject: [PATCH 80/90] fix: report lights whose intensity or range is not a
 number

---
 src/fastgltf.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 19b8bac..4a241a4 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2730,15 +2730,19 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
         }
 
         double intensity;
-        if (lightObject["intensity"].get_double().get(intensity) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto kindError = lightObject["intensity"].get_double().get(intensity); kindError == SUCCESS) FASTGLTF_LIKELY {
             light.intensity = static_cast<num>(intensity);
-        } else {
+        } else if (kindError == NO_SUCH_FIELD) {
             light.intensity = 1.0f;
+        } else {
+            return Error::InvalidGltf;
         }
 
         double range;
-        if (lightObject["range"].get_double().get(range) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto kindError = lightObject["range"].get_double().get(range); kindError == SUCCESS) FASTGLTF_LIKELY {
             light.range = static_cast<num>(range);
+        } else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		std::string_view name;
-- 
2.43.0


From 3c5b15218db8517813aa654219d035a8016b609d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 81/90] fix: report accessor bounds that are not arrays

---
 src/fastgltf.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4a241a4..ba0b91a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1783,7 +1783,8 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		// Type of min and max should always be the same.
 		auto parseMinMax = [&](const std::string_view key, std::optional<AccessorBoundsArray>& ref) -> Error {
 			dom::array elements;
-			if (accessorObject[key].get_array().get(elements) == SUCCESS) FASTGLTF_LIKELY {
+			const auto kindError = accessorObject[key].get_array().get(elements);
+			if (kindError == SUCCESS) FASTGLTF_LIKELY {
 				const auto num = getNumComponents(accessor.type);
 
 				if (accessor.componentType == ComponentType::Float || accessor.componentType == ComponentType::Double) {
@@ -1859,6 +1860,8 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 				if (idx < num) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
+			} else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
 			return Error::None;
 		};
-- 
2.43.0


From ffc93fae42eae81879dce0051bbcfaf1e0e8bd51 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 82/90] fix: report material members of the wrong kind and
 colors with missing components

---
 src/fastgltf.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ba0b91a..e02c9cc 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3020,6 +3020,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 						}
 						diffuseTransmission->diffuseTransmissionColorFactor[i++] = static_cast<num>(value);
 					}
+					if (i != diffuseTransmission->diffuseTransmissionColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				TextureInfo diffuseTransmissionColorTexture;
@@ -3059,6 +3064,9 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 						}
 						sheen->sheenColorFactor[i++] = static_cast<num>(value);
 					}
+					if (i != sheen->sheenColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
@@ -3132,6 +3140,9 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 						}
 						specular->specularColorFactor[i++] = static_cast<num>(value);
 					}
+					if (i != specular->specularColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
@@ -3237,6 +3248,9 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 						}
 						(volume->attenuationColor)[i++] = static_cast<num>(value);
 					}
+					if (i != volume->attenuationColor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
@@ -3317,6 +3331,9 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 						}
 						specularGlossiness->diffuseFactor[i++] = static_cast<num>(value);
 					}
+					if (i != specularGlossiness->diffuseFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
@@ -3341,6 +3358,9 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 						}
 						specularGlossiness->specularFactor[i++] = static_cast<num>(value);
 					}
+					if (i != specularGlossiness->specularFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
@@ -3426,11 +3446,11 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 	    }
 
         dom::object pbrMetallicRoughness;
-        if (materialObject["pbrMetallicRoughness"].get_object().get(pbrMetallicRoughness) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto kindError = materialObject["pbrMetallicRoughness"].get_object().get(pbrMetallicRoughness); kindError == SUCCESS) FASTGLTF_LIKELY {
             PBRData pbr = {};
 
             dom::array baseColorFactor;
-            if (pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor) == SUCCESS) FASTGLTF_LIKELY {
+            if (auto kindError = pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor); kindError == SUCCESS) FASTGLTF_LIKELY {
                 for (auto i = 0U; i < 4; ++i) {
                     double val;
                     if (baseColorFactor.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -3438,6 +3458,8 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
                     }
                     pbr.baseColorFactor[i] = static_cast<num>(val);
                 }
+            } else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
 
             double factor;
@@ -3468,6 +3490,8 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
             }
 
             material.pbrData = std::move(pbr);
+        } else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         std::string_view alphaMode;
-- 
2.43.0


From 2a9b14fd32d9f780be7f1f465344a2a362c5a4bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 83/90] fix: report animation samplers whose interpolation is
 not a string

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e02c9cc..b35aaa9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2050,8 +2050,10 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
             sampler.outputAccessor = static_cast<std::size_t>(output);
 
             std::string_view interpolation;
-            if (samplerObject["interpolation"].get_string().get(interpolation) != SUCCESS) FASTGLTF_UNLIKELY {
+            if (auto kindError = samplerObject["interpolation"].get_string().get(interpolation); kindError == NO_SUCH_FIELD) {
                 sampler.interpolation = AnimationInterpolation::Linear;
+            } else if (kindError != SUCCESS) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             } else {
                 if (interpolation == "LINEAR") {
                     sampler.interpolation = AnimationInterpolation::Linear;
-- 
2.43.0


From c7dc1f51e6251e9168fd00d04951107b45de4f20 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 84/90] fix: report morph targets that are not an array

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b35aaa9..ce7fda7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3676,7 +3676,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			}
 
 			dom::array targets;
-			if (primitiveObject["targets"].get_array().get(targets) == SUCCESS) FASTGLTF_LIKELY {
+			if (auto kindError = primitiveObject["targets"].get_array().get(targets); kindError == SUCCESS) FASTGLTF_LIKELY {
 				primitive.targets = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(primitive.targets), resourceAllocator.get(), 0);
 				primitive.targets.reserve(targets.size());
 				for (auto targetValue : targets) {
@@ -3688,6 +3688,8 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 						return attributesError;
 					}
 				}
+			} else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
 
 			std::uint64_t value;
-- 
2.43.0


From 01fafa22a757e310e33bf16406d334a1442301e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 85/90] fix: report nodes whose matrix or extensions have the
 wrong kind

---
 src/fastgltf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ce7fda7..92a5b5f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3904,10 +3904,12 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
             }
 
             node.transform = trs;
+        } else {
+            return Error::InvalidGltf;
         }
 
         dom::object extensionsObject;
-        if (nodeObject["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto kindError = nodeObject["extensions"].get_object().get(extensionsObject); kindError == SUCCESS) FASTGLTF_LIKELY {
 			if (hasBit(config.extensions, Extensions::KHR_lights_punctual)) {
 				dom::object lightsObject;
 				if (auto lightsError = extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject); lightsError == SUCCESS) FASTGLTF_LIKELY {
@@ -3985,6 +3987,8 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         			return Error::InvalidGltf;
         		}
         	}
+        } else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
-- 
2.43.0


From d6d8b57f0286844e21d65a459f093fadaceeaf8d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 86/90] fix: report physics joints whose limits are not an
 array

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 92a5b5f..1055e02 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4520,7 +4520,7 @@ fg::Error fg::Parser::parsePhysicsJoints(const simdjson::dom::array& physicsJoin
 		}
 
 		dom::array limitsArray;
-		if (physicsJointValue["limits"].get_array().get(limitsArray) == SUCCESS) {
+		if (auto kindError = physicsJointValue["limits"].get_array().get(limitsArray); kindError == SUCCESS) {
 			physicsJoint.limits.reserve(limitsArray.size());
             for (auto limitValue : limitsArray) {
 				auto& limit = physicsJoint.limits.emplace_back();
@@ -4597,6 +4597,8 @@ fg::Error fg::Parser::parsePhysicsJoints(const simdjson::dom::array& physicsJoin
 					return Error::InvalidGltf;
 				}
             }
+		} else if (kindError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		dom::array driveArray;
-- 
2.43.0


From 3e6ed7b33e457001184cf78e9186566fe14dd2e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 87/90] fix: names of compressed attributes are escaped without
 the memory pool too

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1055e02..e4940c6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6326,7 +6326,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(std::string_view(ita->name)) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
-- 
2.43.0


From f33514716bd2c0bc6d3bdaebf9b5d9e5e13f6454 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 88/90] fix: report buffers and images whose uri is not a text

---
 src/fastgltf.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e4940c6..acf1b48 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2125,7 +2125,7 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
         // When parsing GLB, there's a buffer object that will point to the BUF chunk in the
         // file. Otherwise, data must be specified in the "uri" field.
         std::string_view uriString;
-        if (bufferObject["uri"].get_string().get(uriString) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto uriError = bufferObject["uri"].get_string().get(uriString); uriError == SUCCESS) FASTGLTF_LIKELY {
 			URIView uriView(uriString);
 
             if (!uriView.valid()) {
@@ -2152,6 +2152,8 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
                 filePath.uri = uriView;
                 buffer.data = std::move(filePath);
             }
+        } else if (uriError != NO_SUCH_FIELD) {
+            return Error::InvalidGltf;
         } else if (bufferIndex == 0 && !std::holds_alternative<std::monostate>(glbBuffer)) {
             buffer.data = std::move(glbBuffer);
         } else if (meshoptCompressionRequired) {
@@ -2572,7 +2574,7 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
         }
 
         std::string_view uriString;
-        if (imageObject["uri"].get_string().get(uriString) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto uriError = imageObject["uri"].get_string().get(uriString); uriError == SUCCESS) FASTGLTF_LIKELY {
             if (imageObject["bufferView"].error() == SUCCESS) FASTGLTF_LIKELY {
                 // If uri is declared, bufferView cannot be declared.
                 return Error::InvalidGltf;
@@ -2615,6 +2617,8 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
                     }
                 }, image.data);
             }
+        } else if (uriError != NO_SUCH_FIELD) {
+            return Error::InvalidGltf;
         }
 
         std::uint64_t bufferViewIndex;
-- 
2.43.0


From 7336248e0573689796571a73e963983ed2059c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 89/90] fix: default numbers are exact when numbers are double

---
 include/fastgltf/types.hpp | 6 +++---
 src/fastgltf.cpp           | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 171844c..3cb4ac3 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -2082,9 +2082,9 @@ namespace fastgltf {
 	};
 
 	FASTGLTF_EXPORT struct PhysicsMaterial {
-		num staticFriction = 0.6f;
+		num staticFriction = num(0.6);
 
-		num dynamicFriction = 0.6f;
+		num dynamicFriction = num(0.6);
 
 		num restitution = 0.0f;
 
@@ -2479,7 +2479,7 @@ namespace fastgltf {
     FASTGLTF_EXPORT struct MaterialIridescence {
         num iridescenceFactor = 0.0f;
         Optional<TextureInfo> iridescenceTexture;
-        num iridescenceIor = 1.3f;
+        num iridescenceIor = num(1.3);
         num iridescenceThicknessMinimum = 100.0f;
         num iridescenceThicknessMaximum = 400.0f;
         Optional<TextureInfo> iridescenceThicknessTexture;
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index acf1b48..245f858 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6052,7 +6052,7 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 				json += "\"iridescenceTexture\":";
 				writeTextureInfo(json, &it->iridescence->iridescenceTexture.value());
 			}
-			if (it->iridescence->iridescenceIor != 1.3f) {
+			if (it->iridescence->iridescenceIor != num(1.3)) {
 				if (json.back() != '{') json += ',';
 				json += R"("iridescenceIor":)" + to_string_fp(it->iridescence->iridescenceIor);
 			}
-- 
2.43.0


From 489f6f35b3cbecdcfce614d62023686d34c6c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 90/90] fix: report base colours and texture transforms of a
 wrong length

---
 src/fastgltf.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 245f858..e2b9c31 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -369,6 +369,9 @@ namespace fastgltf {
 
 				dom::array array;
 				if (auto kindError = textureTransform["offset"].get_array().get(array); kindError == SUCCESS) FASTGLTF_LIKELY {
+					if (array.size() != 2) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -381,6 +384,9 @@ namespace fastgltf {
 				}
 
 				if (auto kindError = textureTransform["scale"].get_array().get(array); kindError == SUCCESS) FASTGLTF_LIKELY {
+					if (array.size() != 2) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -3457,6 +3463,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
             dom::array baseColorFactor;
             if (auto kindError = pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor); kindError == SUCCESS) FASTGLTF_LIKELY {
+                if (baseColorFactor.size() != 4) FASTGLTF_UNLIKELY {
+                    return Error::InvalidGltf;
+                }
                 for (auto i = 0U; i < 4; ++i) {
                     double val;
                     if (baseColorFactor.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
-- 
2.43.0


// Loading glTF text through the public parser interface.
#pragma once
#include "vh.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/types.hpp>
namespace fg = fastgltf;
#define ASSET "\"asset\":{\"version\":\"2.0\"}"
namespace vh {
inline fg::Expected<fg::Asset> load(fg::Parser& p, const J& j, fg::Options o = fg::Options::None, fg::Category c = fg::Category::All) {
	auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(j.s.data()), j.s.size());
	if (d.error() != fg::Error::None) return d.error();
	return p.loadGltfJson(d.get(), ".", o, c);
}
inline fg::Expected<fg::Asset> load(const J& j, fg::Extensions e = fg::Extensions::None, fg::Options o = fg::Options::None, fg::Category c = fg::Category::All) {
	fg::Parser p(e);
	return load(p, j, o, c);
}
}

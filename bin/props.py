"""Source of properties.jsonl and MANIFEST.json: python3 bin/props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded symbolic execution of the LLVM IR of the real functions, assertions and memory accesses decided by Z3 (SMT), counterexamples replayed natively"
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe), _note=note))
def na(id, reason): NA.append(dict(property=id, reason=reason))
S, B, I, T, U, C = "src/fastgltf.cpp", "src/base64.cpp", "src/io.cpp", "include/fastgltf/types.hpp", "include/fastgltf/util.hpp", "include/fastgltf/core.hpp"
TO, M = "include/fastgltf/tools.hpp", "include/fastgltf/math.hpp"

prop("P01", "Base64 decoding is exact and in bounds for every decoder variant",
     "For every byte string, decoding its canonical padded base64 text returns exactly that byte string, with exactly that size. The portable, SSE4 and AVX2 decoders all return the same result. No decoder reads outside the text it was given or writes outside a buffer of the decoded size.",
     ["inputs", "configurations"], "all byte strings of 1..48 bytes (thorough: 96), each of the three x86-64 decoder variants",
     "the tests decode two fixed strings; a wrong table entry, a lane mix-up or an overrun shows only for particular lengths and characters", [B, "include/fastgltf/base64.hpp"],
     [("vector kernels", "sse4_decode_inplace / avx2_decode_inplace"), ("scalar tail and padding", "fallback_decode_inplace, getPadding, getOutputSize")], ["return value of the decode functions", "every memory access"])
prop("P02", "Embedded data-URI resources are loaded exactly or rejected",
     "A buffer or image whose URI is a base64 data URI is loaded as exactly the encoded bytes together with its media type, into memory owned by the asset or into the memory a caller's allocation callback provided. The allocation callback is asked for exactly the decoded size, every granted mapping is unmapped once, and a user-supplied decoder is handed the exact padding and output size. Any other text after the data scheme, including truncated base64, is rejected with an error and never read or written out of bounds.",
     ["inputs", "configurations"], "all payloads of 1..9 bytes (thorough 24) x 8 media types x every callback configuration; all printable texts of up to 10 characters after the scheme and up to 17 (thorough 36) after the base64 marker",
     "two sample files with one payload each are loaded, and those need assets that are not in the repository", [S, B],
     [("data URI decoding", "Parser::decodeDataUri"), ("buffer and image loading", "Parser::parseBuffers, Parser::parseImages")], ["Asset::buffers, Asset::images", "arguments of the user's callbacks"])
prop("P03", "URI text is split into its components as RFC 3986 prescribes",
     "For every text, the scheme, user info, host, port, path, query and fragment reported for a URI are the substrings that the RFC 3986 grammar assigns to them (a data URI's path is everything after its scheme), and empty or scheme-less-colon text is reported as invalid. Percent decoding replaces exactly the well-formed %XX triplets by the byte they denote. Both are total: no text makes them crash, throw or read out of bounds.",
     ["inputs"], "all texts of up to 7 bytes (thorough 9), also behind fixed prefixes 's://', 'file:' and 'data:'; percent decoding of all texts of up to 6 bytes (thorough 9)",
     "a dozen example URIs cannot cover the combinations of delimiters", [S], [("splitting", "URIView::parse"), ("percent decoding", "URI::decodePercents")], ["accessors of URIView and URI"])
prop("P04", "URI objects behave as independent values",
     "After any sequence of constructing, copying, moving and assigning URIs (from text, views or other URIs), each object reports the text, components and validity of the value it was last given. This stays true after the objects or texts it came from were changed or destroyed, and nothing of a previous value shines through.",
     ["histories", "inputs"], "all pairs out of 7 URI shapes (short, long, all components, encoded, data, empty, invalid) under each of 8 operations followed by a chain of three more",
     "the tests copy and move one URI without components; stale views only show for particular component mixes and string sizes", [S, T], [("view readjustment", "URI::readjustViews, URI::operator="), ("view copies", "URIView::operator=")], ["accessors of URIView and URI"])
prop("P05", "GLB containers are decoded exactly or rejected",
     "For every byte sequence, loading it as a binary glTF either fails with an error or yields the document of its JSON chunk and, as the first buffer without a URI, exactly the bytes of its BIN chunk (in memory owned by the asset or provided by the allocation callback). Containers whose magic, version, total length or chunk types and lengths are inconsistent with each other or with the available data are rejected. The loader never asks its data source for bytes it does not have.",
     ["inputs", "configurations"], "all values of the container and chunk header words (JSON lengths that fit the file: 6 representatives), 16 truncation points, all payloads of up to 9 bytes, mapping granted, declined or absent",
     "the tests load intact sample files only", [S], [("container parsing", "Parser::loadGltfBinary"), ("buffer hand-over", "Parser::parseBuffers")], ["result of loadGltf/loadGltfBinary", "calls on the data source"])
prop("P29", "File types are detected and data sources hand out exactly their bytes",
     "Type detection reports a binary glTF exactly for data that begins with the GLB magic number and a full header, a JSON glTF exactly for other data with an opening brace among its first four bytes, and leaves the source at its start. In-memory and memory-mapped data sources deliver exactly the given bytes in order for every sequence of reads and resets, with the padding the JSON parser asked for readable behind a view. A failing system call is reported as an error, and no descriptor or mapping is leaked.",
     ["inputs", "histories", "fault_sequences"], "all files of 0..24 bytes for detection; contents of 1..6 bytes under all histories of 3 operations; mapped files of 1, 5, 4064 and 4096 bytes; all combinations of failing open, fstat and mmap",
     "detection is tested on two sample files, and no test uses page-sized files or failing system calls", [S, I], [("detection", "determineGltfFileType"), ("sources", "GltfDataBuffer, MappedGltfFile")], ["return values", "open descriptors and mappings"])

exec(open(os.path.join(V, "bin", "props_more.py")).read()) if os.path.exists(os.path.join(V, "bin", "props_more.py")) else None

def main():
    import sys; sys.path.insert(0, os.path.join(V, "bin")); import checks
    P.sort(key=lambda p: p["id"])
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "_note"}) + "\n")
    nas = {n["property"] for n in NA}
    man = dict(version=1, setup_cmd="python3 bin/check.py --setup", checks=[
        dict(property=p["id"], quick_cmd="python3 bin/check.py %s --tier quick" % p["id"], thorough_cmd="python3 bin/check.py %s --tier thorough" % p["id"],
             technique=TECH, level="model_checking", level_note=p["_note"] or "bounded, exhaustive within: " + "; ".join("%s: %s" % (e["name"], e["bounds"]) for e in checks.CHECKS[p["id"]]["entries"])[:1500])
        for p in P if p["id"] in checks.CHECKS and p["id"] not in nas],
        not_applicable=NA, notes="All checks share bin/check.py; harnesses in harness/, registry in bin/checks.py, engine in engine/. No hooks in /repo.")
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
    for p in P:
        if p["id"] not in checks.CHECKS and p["id"] not in nas: print("unclaimed", p["id"])
        assert len(p["title"]) <= 80, p["id"]
    for c in checks.CHECKS:
        if c not in {p["id"] for p in P}: print("no property text for", c)
if __name__ == "__main__": main()

CHECKS = {
 "C09": {"units": [{"src": "memorypool.cpp", "configs": ["san17", "rel20", "clang20"]}]},
 "C01": {"units": [{"src": "bitset_ops.cpp", "configs": ["san17", "rel20", "clang20"], "parts":3}]},
 "C02": {"units": [{"src": "bitset_queries.cpp", "configs": ["san17", "rel20", "clang20"], "parts":2}]},
 "C03": {"units": [{"src": "bitset_order.cpp", "configs": ["san17", "rel20", "clang20"], "parts":1}]},
 "C04": {"units": [{"src": "bitset_stream.cpp", "configs": ["san17", "rel20", "clang20"], "parts":2}]},
}
CHECKS["C05"] = {"units": [{"src": "vectors.cpp", "configs": ["san17", "rel20", "clang20"], "parts":2}]}
CHECKS["C07"] = {"units": [{"src": "vectors.cpp", "configs": ["san17", "rel20", "clang20"], "only_parts":[2]}]}
CHECKS["C06"] = {"units": [{"src": "vec_pairs.cpp", "configs": ["san17", "rel20", "clang20"], "parts":2}]}
CHECKS["C08"] = {"units": [{"src": "faults.cpp", "configs": ["san17", "rel20", "clang20"], "parts":2}]}
CHECKS["C10"] = {"units": [{"src": "signal.cpp", "configs": ["san17", "rel20", "clang20"], "parts":2}]}
CHECKS["C11"] = {"units": [{"src": "signal.cpp", "configs": ["san17", "rel20", "clang20"], "only_parts":[2]}]}
CHECKS["C12"] = {"units": [{"src": "math.cpp", "configs": ["san17", "rel20", "rel17", "clangsan17", "rel23"], "only_parts":[0]}]}
CHECKS["C13"] = {"units": [{"src": "math.cpp", "configs": ["san17", "rel20", "rel17", "clangsan17", "rel23"], "only_parts":[1]}]}
CHECKS["C14"] = {"units": [{"src": "math.cpp", "configs": ["san17", "rel20", "rel17", "clangsan17", "rel23"], "only_parts":[2]}]}
CHECKS["C15"] = {"units": [{"src": "bytes.cpp", "configs": ["san17", "rel20", "rel17", "clangsan17", "rel23"], "only_parts":[0]}]}
CHECKS["C16"] = {"units": [{"src": "bytes.cpp", "configs": ["san17", "rel20", "clangsan17"], "only_parts":[1]}]}
CHECKS["C17"] = {"units": [{"src": "flags.cpp", "configs": ["san17", "rel20", "clang20"], "parts":4}]}
CHECKS["C18"] = {"units": [{"src": "enumarray.cpp", "configs": ["san17", "rel20", "clang20"]}]}
CHECKS["C19"] = {"units": [{"src": "result.cpp", "configs": ["san17", "rel20", "clangsan17"]}]}
CHECKS["C20"] = {"units": [{"src": "wrappers.cpp", "configs": ["san17", "rel20", "clangsan17"], "only_parts":[0]}]}
CHECKS["C21"] = {"units": [{"src": "wrappers.cpp", "configs": ["san17", "rel20", "clangsan17"], "only_parts":[1]}]}
CHECKS["C22"] = {"units": [{"src": "wrappers.cpp", "configs": ["san17", "rel20", "clangsan17"], "only_parts":[2]}]}
CHECKS["C23"] = {"units": [{"src": "wrappers.cpp", "configs": ["san17", "rel20", "clangsan17"], "only_parts":[3]}]}
CHECKS["C24"] = {"units": [{"src": "sparseptr.cpp", "configs": ["san17", "rel20", "clangsan17"]}]}
CHECKS["C25"] = {"units": [{"src": "algorithm.cpp", "configs": ["san17", "dbg20", "clang20", "rel17"], "only_parts": [0]}]}
CHECKS["C29"] = {"units": [{"src": "algorithm.cpp", "configs": ["san17", "rel20", "clang20", "rel23"], "only_parts": [1]}]}
CHECKS["C26"] = {"units": [{"src": "types.cpp", "configs": ["san17", "rel20", "clang20"], "parts": 2}]}
CHECKS["C30"] = {"units": [{"src": "types.cpp", "configs": ["rel17", "dbg20", "clang20", "clang17", "rel23"], "only_parts": [2]}]}
CHECKS["C31"] = {"units": [
    {"src": "assertions.cpp", "configs": ["dbg17", "dbg20", "rel20", "rel17", "clang20", "clang17", "dbg23", "clang23"]},
    {"src": "assertions.cpp", "configs": ["rel20", "rel17"], "defs": ["-DNAZARA_ENABLE_ASSERTS"]},
    {"src": "assertions.cpp", "configs": ["dbg17", "clang20"], "defs": ["-DNAZARA_NO_ASSERT"]},
    {"src": "assertions.cpp", "configs": ["rel20"], "defs": ["-DNAZARA_NO_ASSERT", "-DNAZARA_ENABLE_ASSERTS"]}]}
CHECKS["C32"] = {"units": [{"src": "contracts.cpp", "configs": ["dbg17", "dbg20", "clang20"], "parts": 3}]}
CHECKS["C28"] = {"units": [
    {"src": "constexpr.cpp", "configs": ["dbg17", "clang17"], "parts": 3},
    {"src": "constexpr.cpp", "configs": ["dbg20", "clang20", "rel20", "dbg23", "clang23"], "parts": 5}]}
CHECKS["C27"] = {"units": [{"src": "strings.cpp", "configs": ["san17", "san20", "rel20", "clang20", "rel23"]}]}
CHECKS["C34"] = {"units": [{"src": "headers.cpp", "configs": ["rel17"]}]}
CHECKS["C35"] = {"units": [{"src": "storage.cpp", "configs": ["san17", "rel20", "clang20"], "only_parts": [0, 2, 3]}]}
CHECKS["C36"] = {"units": [{"src": "storage.cpp", "configs": ["san17", "rel20", "clang20"], "only_parts": [1]}]}
CHECKS["C38"] = {"units": [{"src": "traits.cpp", "configs": ["rel17", "rel20", "clang20", "clang17"], "parts": 5}, {"src": "traits.cpp", "configs": ["san20"], "only_parts": [3]}]}
CHECKS["C37"] = {"units": [{"src": "misuse.cpp", "configs": ["rel17"]}]}
# sizes and positions on both sides of the 8- and 16-bit limits
CHECKS["C33"] = {"units": [{"src": "threads.cpp", "configs": ["tsan17", "clangtsan20"]}]}
for _id, _part, _cfgs in [("C03", 8, ["rel20"]), ("C01", 0, ["rel20"]), ("C02", 1, ["rel20"]), ("C04", 2, ["rel20"]), ("C05", 3, ["rel20"]), ("C07", 4, ["rel20"]),
                          ("C09", 5, ["rel20"]), ("C10", 6, ["san17"]), ("C11", 7, ["san17"])]:
    CHECKS[_id]["units"].append({"src": "scale.cpp", "configs": _cfgs, "only_parts": [_part]})
# targets whose char is unsigned, and builds without run-time type information
CHECKS["C12"]["units"].append({"src": "math.cpp", "configs": ["rel20"], "only_parts": [0], "defs": ["-funsigned-char"]})
CHECKS["C13"]["units"].append({"src": "math.cpp", "configs": ["rel20"], "only_parts": [1], "defs": ["-funsigned-char"]})
CHECKS["C16"]["units"].append({"src": "bytes.cpp", "configs": ["rel20"], "only_parts": [1], "defs": ["-funsigned-char"]})
CHECKS["C25"]["units"].append({"src": "algorithm.cpp", "configs": ["rel20"], "only_parts": [0], "defs": ["-funsigned-char"]})
CHECKS["C27"]["units"].append({"src": "strings.cpp", "configs": ["rel20"], "defs": ["-funsigned-char"]})

// Histories of API calls used by the checks that fail, count or limit allocations.
#pragma once
#include "corpus.h"
#include <memory>

namespace history {
struct World {
    Host h;
    Stream s;
    NKValue v[4], k;
    void *mem = nullptr, *mem2 = nullptr;
    NKVMExternalFunctionID fid{NK_INVALID_VALUE};
    World() { memset(v, 0, sizeof v); memset(&k, 0, sizeof k); }
};
typedef std::function<void(World &)> Step;
struct History { std::string name; std::vector<std::pair<std::string, Step>> steps; uint64_t n = 0; std::vector<uint64_t> after; };
std::vector<History> all(bool thorough);
std::vector<History> forced(); // the host itself declares the VM failed
} // namespace history

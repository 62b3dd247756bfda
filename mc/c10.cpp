// uses: lang.cpp corpus.cpp history.cpp
// C10: every allocation request of every history fails once (alone, together with all later ones, or followed by
// failing requests during deletion); every API call returns, the failure is queryable, nothing runs afterwards, and
// deletion returns every block.
#include "history.h"
using namespace mc;
using std::string;
using std::vector;

using namespace history;
static vector<string> namesOf() { return {"a", "b", "c", "o", "r", "co", "n"}; }
static string raw(Host &h) {
    string s;
    for(auto &n : namesOf()) { NKValue *v = nkxVmFindGlobalVariable(h.vm, nullptr, n.c_str()); if(v) s.append((const char *)v, sizeof *v); else s += "?"; }
    return s;
}
enum Mode { SINGLE, PERSISTENT, TEARDOWN, MODES };
static const char *MN[] = {"only", "and every later one", "and every request during deletion"};

static void runHist(Case &c, const History &hist, int64_t at, int mode, uint64_t *count = nullptr) {
    World w;
    Host &h = w.h;
    h.led.failAt = at; h.led.persistent = mode == PERSISTENT;
    if(at < 0) c.desc("history '%s'", hist.name.c_str());
    bool dead = false; int calls = 0; string glob; string failedIn; size_t outLen = 0;
    for(auto &s : hist.steps) {
        if(!h.vm && s.first != "create") break;
        s.second(w);
        c.trans();
        if(!h.vm) { if(!h.led.failed) c.fail("creation answered NULL without an allocation failure"); break; }
        if(h.led.failed && !dead) {
            dead = true; failedIn = s.first;
            calls = h.nativeCalls; outLen = h.out.size();
            if(!nkxVmHasAllocationFailure(h.vm)) { c.fail("request failed during '%s' but nkxVmHasAllocationFailure says no", s.first.c_str()); break; }
            if(!nkxVmHasErrors(h.vm)) c.fail("request failed during '%s' but nkxVmHasErrors says no", s.first.c_str());
            if(!nkxGetErrorCount(h.vm)) c.fail("request failed during '%s' but the error count is 0", s.first.c_str());
            if(h.errors().empty()) c.fail("request failed during '%s' but the error text is empty", s.first.c_str());
            glob = raw(h);
        } else if(dead) {
            if(!nkxVmHasAllocationFailure(h.vm)) { c.fail("'%s' after the failure in '%s' forgot the failure", s.first.c_str(), failedIn.c_str()); break; }
            if(h.nativeCalls != calls || h.out.size() != outLen) { c.fail("'%s' after the failure in '%s' ran native code", s.first.c_str(), failedIn.c_str()); break; }
            if(raw(h) != glob) { c.fail("'%s' after the failure in '%s' changed variables", s.first.c_str(), failedIn.c_str()); break; }
        } else if(nkxVmHasAllocationFailure(h.vm)) { c.fail("'%s' reports an allocation failure that did not happen", s.first.c_str()); break; }
    }
    bool before = h.led.failed;
    if(at >= 0 && h.led.failed) { c.outcome("failed in " + failedIn); c.nontrivial((uint64_t)at * 3 + mode + hashStr(hist.name)); }
    if(mode == TEARDOWN) h.led.teardownFail = true;
    if(h.vm) h.destroy();
    if(count) *count = h.led.calls;
    if(at >= 0 && h.led.failed && !before) { c.outcome("failed in deletion"); c.nontrivial((uint64_t)at * 3 + mode + hashStr(hist.name)); }
    if(h.led.blocks) c.fail("%llu blocks (%llu bytes) not returned", (unsigned long long)h.led.blocks, (unsigned long long)h.led.bytes);
    for(auto &p : h.problems) c.fail("%s", p.c_str());
    if(!h.live.empty() && h.subCleaned) c.fail("%zu native data objects cannot be cleaned up", h.live.size());
    c.trace();
}

void define(Registry &r) {
    r.level = "fault_enumeration";
    r.rule = "the requests a history makes to the host allocator, deletion included, are counted, then the history is repeated once per request and mode with that request failing; after the failing call all remaining calls of the history are still made, then the VM is deleted";
    bool th = r.thorough();
    static vector<History> H = history::all(th);
    for(auto &f : history::forced()) H.push_back(f);
    uint64_t total = 0;
    for(size_t k = 0; k < H.size(); k++) {
        Case dummy;
        runHist(dummy, H[k], -1, SINGLE, &H[k].n);
        total += H[k].n;
        // +1: the undisturbed history itself
        r.add(H[k].name, (H[k].n + 1) * MODES, [k](uint64_t i, Case &c) {
            int64_t at = (int64_t)(i / MODES) - 1; int m = i % MODES;
            c.desc("history '%s', request %lld of %llu fails (%s)", H[k].name.c_str(), (long long)at, (unsigned long long)H[k].n, MN[m]);
            runHist(c, H[k], at, m);
            if(i % 400 == 0) c.sample(strf("%s: request %lld fails, %s", H[k].name.c_str(), (long long)at, MN[m]));
        }).cpuSeconds = 10;
    }
    r.bounds = strf("%zu histories (creation, registration, compiling %d good and %d bad programs, running with frequent collection, slicing, calls, shrinking, saving, restoring, error reporting, line-by-line use, callbacks that use the API, failures declared by the host%s), all %llu allocation requests x %d failure modes", H.size(), (int)corpus::all().size(), 13, th ? ", heap programs" : "", (unsigned long long)total, MODES);
    r.assumptions = {"native callbacks check the values they get and release native data in the subsystem cleanup callback as documented", "saves of a VM are restored into VMs with the same registrations"};
}

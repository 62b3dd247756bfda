// uses: lang.cpp corpus.cpp history.cpp
// C11: the library's reported memory figures are compared with the host's own ledger after every API call and every
// single instruction; memory limits are placed at every point where they would just bite or just not bite; the
// allocation helpers are driven through all short operation sequences.
#include "history.h"
using namespace mc;
using namespace history;
using std::string;
using std::vector;

static bool bypass(Case &c, uint64_t raw0) {
    if(gRawAllocs != raw0) c.fail("the library allocated %llu times from the system heap although replacement functions were given", (unsigned long long)(gRawAllocs - raw0));
    return gRawAllocs != raw0;
}
// The VM's own control structure is the one block that may be left out of the figures.
struct Acct {
    uint64_t base = 0;
    bool begin(Case &c, Host &h) {
        base = h.led.bytes - nkxVmGetCurrentMemoryUsage(h.vm);
        if(base != 0 && base != h.led.first) { c.fail("after creation %llu bytes are outstanding but %u are reported", (unsigned long long)h.led.bytes, nkxVmGetCurrentMemoryUsage(h.vm)); return false; }
        return check(c, h, "creation");
    }
    bool check(Case &c, Host &h, const char *where) {
        uint64_t cur = nkxVmGetCurrentMemoryUsage(h.vm), peak = nkxVmGetPeakMemoryUsage(h.vm);
        if(cur + base != h.led.bytes) { c.fail("after %s: %llu bytes outstanding, %llu reported", where, (unsigned long long)(h.led.bytes - base), (unsigned long long)cur); return false; }
        if(peak + base != h.led.peakBytes) { c.fail("after %s: peak was %llu bytes, %llu reported", where, (unsigned long long)(h.led.peakBytes - base), (unsigned long long)peak); return false; }
        if(h.led.noContext) { c.fail("an allocator callback came without the host's context pointer (by %s)", where); return false; }
        return true;
    }
};
static void finishHost(Case &c, Host &h) {
    if(h.vm) h.destroy();
    if(h.led.blocks) c.fail("%llu blocks (%llu bytes) not returned", (unsigned long long)h.led.blocks, (unsigned long long)h.led.bytes);
    if(h.led.noContext) c.fail("an allocator callback came without the host's context pointer");
    for(auto &p : h.problems) c.fail("%s", p.c_str());
    c.trace();
}

// -- whole histories -----------------------------------------------------------------------------------------------
static void account(Case &c, const History &H) {
    World w;
    uint64_t raw0 = gRawAllocs;
    Acct a; bool ok = true;
    for(auto &s : H.steps) {
        s.second(w);
        c.trans();
        if(!w.h.vm) { c.fail("creation answered NULL"); return; }
        ok = s.first == "create" ? a.begin(c, w.h) : a.check(c, w.h, s.first.c_str());
        c.state(w.h.led.bytes);
        if(!ok) break;
    }
    c.outcome(nkxVmHasErrors(w.h.vm) ? "history with errors" : "history without errors");
    finishHost(c, w.h);
    bypass(c, raw0);
}
static void accountRun(Case &c, const string &src, int pert) {
    Host h;
    uint64_t raw0 = gRawAllocs;
    Acct a;
    if(!h.create() || !a.begin(c, h)) { if(!c.failed()) c.fail("creation failed"); return; }
    h.compiler(); h.natives(); h.compile(src); h.finalize();
    a.check(c, h, "loading");
    nkxSetGarbageCollectionInterval(h.vm, pert == 1 ? 1 : pert == 2 ? 13 : 100000);
    nkxSetGarbageCollectionNewObjectInterval(h.vm, 5);
    if(pert == 3) h.gcInNatives = true;
    for(uint64_t n = 0; n < 3000 && !c.failed() && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm); n++) {
        nkxVmIterate(h.vm, 1);
        c.trans();
        if(!a.check(c, h, "one instruction")) break;
        if(pert == 4 && n % 5 == 0) { nkxVmShrink(h.vm); a.check(c, h, "shrinking"); }
        if(pert == 5 && n % 7 == 0) { Stream s; h.save(s); a.check(c, h, "saving"); }
        if(pert == 6 && n % 40 == 20) {
            Stream s; h.save(s);
            Host g; Acct b;
            if(!g.create() || !b.begin(c, g)) break;
            g.natives();
            Stream t; t.buf = s.buf;
            g.restore(t);
            b.check(c, g, "restoring");
            for(int k = 0; k < 30; k++) { nkxVmIterate(g.vm, 1); if(!b.check(c, g, "an instruction after restoring")) break; }
            finishHost(c, g);
        }
        c.state(h.led.bytes);
    }
    finishHost(c, h);
    bypass(c, raw0);
}

// -- limits --------------------------------------------------------------------------------------------------------
struct LimCase { size_t hist; uint64_t limit; int64_t failAt; }; // failAt -1: never
static uint64_t gBase;
static uint64_t measure(const History &H, vector<uint64_t> &usage, uint64_t &created) {
    World w; Acct a;
    usage.clear(); w.h.led.usage = &usage; created = 0;
    for(auto &s : H.steps) {
        s.second(w);
        if(s.first == "create") { gBase = w.h.led.bytes - nkxVmGetCurrentMemoryUsage(w.h.vm); created = usage.size(); }
    }
    w.h.led.usage = nullptr;
    uint64_t n = w.h.led.calls;
    w.h.destroy();
    return n;
}
static void limited(Case &c, const History &H, const LimCase &l) {
    World w; Acct a; Host &h = w.h;
    uint64_t raw0 = gRawAllocs;
    bool dead = false; int calls = 0; uint64_t peak0 = 0;
    for(auto &s : H.steps) {
        s.second(w); c.trans();
        if(!h.vm) { c.fail("creation answered NULL"); return; }
        if(s.first == "create") {
            if(!a.begin(c, h)) break;
            nkxSetMaxAllocatedMemory(h.vm, l.limit);
            if(nkxGetMaxAllocatedMemory(h.vm) != l.limit) c.fail("limit %llu set, %u reported", (unsigned long long)l.limit, nkxGetMaxAllocatedMemory(h.vm));
        } else if(!a.check(c, h, s.first.c_str())) break;
        if(s.first == "create") peak0 = nkxVmGetPeakMemoryUsage(h.vm);
        if(nkxVmGetPeakMemoryUsage(h.vm) > std::max(l.limit, peak0)) { c.fail("usage %u exceeds the limit %llu during '%s'", nkxVmGetPeakMemoryUsage(h.vm), (unsigned long long)l.limit, s.first.c_str()); break; }
        bool af = nkxVmHasAllocationFailure(h.vm);
        if(af && !dead) {
            dead = true; calls = h.nativeCalls;
            if(l.failAt < 0) { c.fail("a request was refused during '%s' although usage never exceeds the limit %llu", s.first.c_str(), (unsigned long long)l.limit); break; }
            if((int64_t)h.led.calls != l.failAt) { c.fail("limit %llu: request %lld is the first to exceed it, but a failure came at request %llu (in '%s')", (unsigned long long)l.limit, (long long)l.failAt, (unsigned long long)h.led.calls, s.first.c_str()); break; }
            if(!nkxVmHasErrors(h.vm)) c.fail("a refused request is not reported as an error");
            c.outcome("refused in " + s.first);
        } else if(!af && dead) { c.fail("the failure was forgotten"); break; }
        else if(!dead && l.failAt >= 0 && (int64_t)h.led.calls > l.failAt) { c.fail("limit %llu: request %lld exceeds it but was passed on to the host (in '%s')", (unsigned long long)l.limit, (long long)l.failAt, s.first.c_str()); break; }
        if(dead && h.nativeCalls != calls) { c.fail("native code ran after the failure"); break; }
    }
    if(!c.failed() && l.failAt >= 0 && !dead) c.fail("no failure although request %lld exceeds the limit %llu", (long long)l.failAt, (unsigned long long)l.limit);
    if(l.failAt < 0) c.outcome("limit never reached");
    c.nontrivial(hashStr(H.name) + l.limit);
    finishHost(c, h);
    bypass(c, raw0);
}

// Limits set between two instructions.
struct RunTrace { vector<uint64_t> usage; vector<uint32_t> at; uint64_t base = 0, n = 0; };
static RunTrace traceRun(const string &src) {
    RunTrace t; Host h;
    h.led.usage = &t.usage;
    h.create(); t.base = h.led.bytes - nkxVmGetCurrentMemoryUsage(h.vm);
    h.compiler(); h.natives(); h.compile(src); h.finalize();
    nkxSetGarbageCollectionInterval(h.vm, 37);
    nkxSetGarbageCollectionNewObjectInterval(h.vm, 5);
    while(t.n < 1500 && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm)) { t.at.push_back(t.usage.size()); nkxVmIterate(h.vm, 1); t.n++; }
    t.at.push_back(t.usage.size());
    h.led.usage = nullptr;
    h.destroy();
    return t;
}
static void midLimit(Case &c, const string &src, const RunTrace &t, uint64_t at, int kind) {
    Host h;
    uint64_t raw0 = gRawAllocs;
    h.create(); h.compiler(); h.natives(); h.compile(src); h.finalize();
    nkxSetGarbageCollectionInterval(h.vm, 37);
    nkxSetGarbageCollectionNewObjectInterval(h.vm, 5);
    for(uint64_t i = 0; i < at; i++) nkxVmIterate(h.vm, 1);
    uint64_t cur = nkxVmGetCurrentMemoryUsage(h.vm), lim;
    int64_t ref = -1;
    // the next request that raises usage above everything since this point
    uint64_t k = t.at[at], nextU = k < t.usage.size() ? t.usage[k] - t.base : cur + 100;
    switch(kind) {
    case 0: lim = cur ? cur - 1 : 0; break;
    case 1: lim = cur; break;
    case 2: lim = nextU - 1; break;
    case 3: lim = nextU; break;
    case 4: lim = 0; break;
    default: lim = 0xffffffffu; break;
    }
    uint64_t end = t.at.back();
    for(uint64_t j = k; j < end; j++) if(t.usage[j] - t.base > lim) { ref = j; break; }
    if(kind == 5) { nkxSetMaxAllocatedMemory(h.vm, 0); nkxSetMaxAllocatedMemory(h.vm, 1); }
    nkxSetMaxAllocatedMemory(h.vm, lim);
    c.desc("limit %llu (usage %llu) set after %llu instructions of\n%s", (unsigned long long)lim, (unsigned long long)cur, (unsigned long long)at, src.c_str());
    for(uint64_t i = at; i < t.n && !nkxVmHasAllocationFailure(h.vm); i++) {
        nkxVmIterate(h.vm, 1); c.trans();
        if(!nkxVmHasAllocationFailure(h.vm) && ref >= 0 && (int64_t)h.led.calls > ref) { c.fail("request %lld exceeds the limit but was granted", (long long)ref); break; }
    }
    bool af = nkxVmHasAllocationFailure(h.vm);
    if(af && ref < 0) c.fail("a request was refused although usage never exceeds the limit");
    else if(!af && ref >= 0 && !c.failed()) c.fail("request %lld exceeds the limit but nothing failed", (long long)ref);
    else if(af && (int64_t)h.led.calls != ref) c.fail("request %lld is the first to exceed the limit, the failure came at request %llu", (long long)ref, (unsigned long long)h.led.calls);
    c.outcome(af ? "refused" : "not reached");
    c.nontrivial(hashStr(src) + at * 8 + kind);
    finishHost(c, h);
    bypass(c, raw0);
}

// -- allocation helpers --------------------------------------------------------------------------------------------
struct Op { int what; uint32_t a, b; };
static vector<Op> helperOps() {
    vector<Op> v;
    for(uint32_t s : {0u, 1u, 24u, 100u}) v.push_back({0, s, 0});          // malloc
    v.push_back({1, 3, 7}); v.push_back({1, 0, 5}); v.push_back({1, 5, 0}); // mallocArray
    for(uint32_t s : {0u, 1u, 23u, 200u}) v.push_back({2, s, 0});          // realloc
    v.push_back({3, 3, 9}); v.push_back({3, 0, 5}); v.push_back({3, 4, 0}); // reallocArray
    v.push_back({4, 0, 0}); v.push_back({4, 11, 0});                       // strdup
    v.push_back({5, 0, 0});                                                // free
    return v;
}
static string opName(const Op &o, int slot) {
    static const char *N[] = {"malloc", "mallocArray", "realloc", "reallocArray", "strdup", "free"};
    return strf("%s[%d](%u%s)", N[o.what], slot, o.a, (o.what == 1 || o.what == 3) ? strf(",%u", o.b).c_str() : "");
}
struct Slot { unsigned char *p = nullptr; uint64_t n = 0; unsigned char pat = 0; };
static void helpers(Case &c, const vector<int> &seq, const vector<Op> &ops) {
    Host h; Acct a;
    uint64_t raw0 = gRawAllocs;
    if(!h.create() || !a.begin(c, h)) return;
    Slot s[2]; unsigned char pat = 1;
    string d;
    for(int x : seq) d += opName(ops[x / 2], x % 2) + " ";
    c.descs(d);
    uint64_t before = h.led.bytes, blocks = h.led.blocks, overhead = 0; bool haveOver = false;
    for(int x : seq) {
        const Op &o = ops[x / 2]; Slot &t = s[x % 2], old = t;
        uint64_t want = 0;
        switch(o.what) {
        case 0: want = o.a; if(t.p) nkxFree(h.vm, t.p); t.p = (unsigned char *)nkxMalloc(h.vm, o.a); break;
        case 1: want = (uint64_t)o.a * o.b; if(t.p) nkxFree(h.vm, t.p); t.p = (unsigned char *)nkxMallocArray(h.vm, o.a, o.b); break;
        case 2: want = o.a; t.p = (unsigned char *)nkxRealloc(h.vm, t.p, o.a); break;
        case 3: want = (uint64_t)o.a * o.b; t.p = (unsigned char *)nkxReallocArray(h.vm, t.p, o.a, o.b); break;
        case 4: { string str(o.a, 'q'); want = o.a + 1; if(t.p) nkxFree(h.vm, t.p); t.p = (unsigned char *)nkxStrdup(h.vm, str.c_str());
            if(t.p && string((char *)t.p) != str) c.fail("duplicated string differs"); break; }
        case 5: nkxFree(h.vm, t.p); t.p = nullptr; break;
        }
        c.trans();
        t.n = want;
        if(want && !t.p) { c.fail("%s answered NULL", opName(o, x % 2).c_str()); break; }
        if(!want && t.p) { c.fail("%s answered a block", opName(o, x % 2).c_str()); break; }
        if(t.p && (o.what == 2 || o.what == 3) && old.p) for(uint64_t i = 0; i < std::min(old.n, t.n); i++) if(t.p[i] != old.pat) { c.fail("%s lost byte %llu", opName(o, x % 2).c_str(), (unsigned long long)i); break; }
        t.pat = pat++;
        if(t.p) memset(t.p, t.pat, t.n); // the whole block must be usable
        if(nkxVmHasErrors(h.vm) || nkxVmHasAllocationFailure(h.vm)) { c.fail("%s reported a failure", opName(o, x % 2).c_str()); break; }
        if(!a.check(c, h, opName(o, x % 2).c_str())) break;
        uint64_t nb = !!s[0].p + !!s[1].p, by = s[0].n + s[1].n;
        if(h.led.blocks != blocks + nb) { c.fail("%llu blocks outstanding for %llu live ones", (unsigned long long)(h.led.blocks - blocks), (unsigned long long)nb); break; }
        uint64_t extra = h.led.bytes - before - by;
        if(nb) { if(!haveOver) { overhead = extra / nb; haveOver = true; } if(extra != overhead * nb) c.fail("bookkeeping per block is not constant"); }
        for(int i = 0; i < 2; i++) if(s[i].p) for(uint64_t j = 0; j < s[i].n; j++) if(s[i].p[j] != s[i].pat) { c.fail("a live block changed"); i = 2; break; }
        c.state(s[0].n * 1000 + s[1].n);
    }
    for(auto &t : s) if(t.p) nkxFree(h.vm, t.p);
    c.nontrivial(hashStr(d));
    finishHost(c, h);
    bypass(c, raw0);
}
static const uint32_t EDGE[] = {0, 1, 2, 3, 16, 255, 65535, 65536, 65537, 0x7fffffff, 0x80000000u, 0x80000001u, 0xaaaaaaabu, 0xfffffff0u, 0xfffffffeu, 0xffffffffu};
static void overflow(uint64_t i, Case &c) {
    Idx x(i);
    const unsigned N = sizeof EDGE / sizeof *EDGE;
    uint32_t sz = EDGE[x.pick(N)], ct = EDGE[x.pick(N)]; int form = x.pick(4);
    c.desc("%s size %u count %u", form == 0 ? "mallocArray" : form == 1 ? "reallocArray of a live block" : form == 2 ? "malloc of the size alone" : "reallocArray of NULL", sz, ct);
    Host h; Acct a;
    uint64_t raw0 = gRawAllocs;
    if(!h.create() || !a.begin(c, h)) return;
    h.led.cap = 64u << 20;
    if(form == 2) ct = 1;
    uint64_t want = (uint64_t)sz * ct;
    unsigned char *p = nullptr;
    if(form == 1) { p = (unsigned char *)nkxMalloc(h.vm, 10); memset(p, 7, 10); }
    unsigned char *q = (unsigned char *)(form == 0 ? nkxMallocArray(h.vm, sz, ct) : form == 2 ? nkxMalloc(h.vm, sz) : nkxReallocArray(h.vm, p, sz, ct));
    c.trans();
    bool af = nkxVmHasAllocationFailure(h.vm);
    if(want == 0) {
        if(q || af) c.fail("an empty request answered %s", q ? "a block" : "a failure");
    } else if(want < (32u << 20)) {
        if(!q || af) c.fail("%llu bytes were refused", (unsigned long long)want);
        else { memset(q, 3, want); }
    } else {
        if(q) c.fail("%llu bytes cannot be provided but a block was answered", (unsigned long long)want);
        if(!af) c.fail("an impossible request is not reported as a failure");
        if(p && !q) for(int k = 0; k < 10; k++) if(p[k] != 7) c.fail("a failed reallocation damaged the block"); // still the host's
    }
    a.check(c, h, "the request");
    if(!af && q) nkxFree(h.vm, q);
    c.outcome(af ? "refused" : want ? "granted" : "empty");
    c.nontrivial(i);
    finishHost(c, h);
    bypass(c, raw0);
}
// The figures are the same with the default allocator.
static void defaults(Case &c, const string &src) {
    c.descs(src);
    Host h; Acct a;
    if(!h.load(src)) { c.fail("does not load"); return; }
    Host d; // default allocation
    for(int form = 0; form < 1; form++) {
        uint64_t live0 = gRawAllocs - gRawFrees;
        NKVM *vm = nkxVmCreate();
        if(!vm) { c.fail("creation failed"); return; }
        d.vm = vm; nkxSetUserData(vm, &d);
        d.compiler(); d.natives(); d.compile(src); d.finalize();
        Host *hs[2] = {&h, &d};
        if(form == 0) {
            for(int n = 0; n < 2000 && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm); n++) {
                for(Host *x : hs) nkxVmIterate(x->vm, 1);
                c.trans();
                if(nkxVmGetCurrentMemoryUsage(h.vm) != nkxVmGetCurrentMemoryUsage(d.vm) || nkxVmGetPeakMemoryUsage(h.vm) != nkxVmGetPeakMemoryUsage(d.vm)) { c.fail("usage differs between default and replaced allocation"); break; }
                c.state(nkxVmGetCurrentMemoryUsage(h.vm));
            }
            if(h.out != d.out) c.fail("output differs between default and replaced allocation");
        }
        d.vm = nullptr;
        nkxVmDelete(vm);
        if(gRawAllocs - gRawFrees != live0) c.fail("%lld blocks of the default allocator not returned", (long long)(gRawAllocs - gRawFrees - live0));
        if(!d.live.empty()) c.fail("native data not cleaned up");
        c.trace();
    }
    h.destroy();
}

void define(Registry &r) {
    r.level = "model_checking";
    r.rule = "the host's allocator keeps a ledger of every block; after each API call and each single instruction of every history the library's current and peak figures must equal the ledger's, with no allocation outside the host's functions (the library's own calls to malloc are redirected to a counter); limits are placed on, just below and just above every new high of every history and must fail exactly the first request that exceeds them";
    bool th = r.thorough();
    static vector<History> H = history::all(th);
    r.add("account", H.size(), [](uint64_t i, Case &c) { c.desc("history '%s'", H[i].name.c_str()); account(c, H[i]); if(i % 10 == 0) c.sample(H[i].name); }).cpuSeconds = 30;
    static vector<string> P;
    for(auto &p : corpus::all()) P.push_back(p.src);
    uint64_t A = corpus::heapActions(), base = P.size(), np = th ? A + A * A : A;
    static vector<string> Q = P;
    for(uint64_t i = 0; i < np; i++) { Q.push_back(corpus::heapProgram(seqDecode(i, A), i & 1)); if(th) Q.push_back(corpus::heapProgram(seqDecode(i, A), !(i & 1))); }
    r.add("run", Q.size() * 7, [](uint64_t i, Case &c) {
        static const char *N[] = {"no collection", "collection at every instruction", "collection every 13 instructions", "collection inside natives", "shrinking", "saving", "restoring"};
        c.desc("%s, one instruction at a time:\n%s", N[i % 7], Q[i / 7].c_str());
        accountRun(c, Q[i / 7], i % 7);
        if(i % 50 == 0) c.sample(strf("%s: %s", N[i % 7], Q[i / 7].substr(0, 150).c_str()));
    }).cpuSeconds = 30;
    static vector<LimCase> L;
    for(size_t k = 0; k < H.size(); k++) {
        vector<uint64_t> u; uint64_t created;
        measure(H[k], u, created);
        uint64_t base = gBase, hi = 0; // highest usage while the limit is in force; creation itself is not limited
        uint64_t cur = created ? u[created - 1] - base : 0;
        uint64_t last = 0;
        (void)cur; hi = 0;
        vector<std::pair<uint64_t, uint64_t>> rec; // (usage, request)
        for(uint64_t j = created; j < u.size(); j++) if(u[j] - base > hi) { hi = u[j] - base; rec.push_back({hi, j}); }
        for(size_t q = 0; q < rec.size(); q++) {
            uint64_t lo = q ? rec[q - 1].first : 0;
            for(uint64_t l : {lo, lo + 1, rec[q].first - 1}) if(l < rec[q].first) L.push_back({k, l, (int64_t)rec[q].second});
        }
        for(uint64_t l : {hi, hi + 1, (uint64_t)0xffffffffu}) L.push_back({k, l, -1});
        (void)last;
    }
    r.add("limit", L.size(), [](uint64_t i, Case &c) {
        c.desc("history '%s' with a limit of %llu bytes (request %lld is the first to exceed it)", H[L[i].hist].name.c_str(), (unsigned long long)L[i].limit, (long long)L[i].failAt);
        limited(c, H[L[i].hist], L[i]);
        if(i % 500 == 0) c.sample(strf("%s: limit %llu, request %lld refused", H[L[i].hist].name.c_str(), (unsigned long long)L[i].limit, (long long)L[i].failAt));
    }).cpuSeconds = 20;
    static vector<RunTrace> T; static vector<std::pair<int, int>> M;
    int stride = th ? 1 : 9;
    for(size_t p = 0; p < P.size(); p++) { T.push_back(traceRun(P[p])); for(uint64_t n = p % stride; n < T[p].n; n += stride) M.push_back({(int)p, (int)n}); }
    r.add("midlimit", M.size() * 6, [](uint64_t i, Case &c) { auto m = M[i / 6]; midLimit(c, P[m.first], T[m.first], m.second, i % 6); }).cpuSeconds = 20;
    static vector<Op> O = helperOps();
    int depth = th ? 4 : 3;
    r.add("helpers", seqCount(O.size() * 2, depth), [](uint64_t i, Case &c) { helpers(c, seqDecode(i, O.size() * 2), O); if(i % 4000 == 0) c.sample(strf("helper sequence %llu", (unsigned long long)i)); });
    const uint64_t N = sizeof EDGE / sizeof *EDGE;
    r.add("overflow", N * N * 4, overflow);
    r.add("default", P.size(), [](uint64_t i, Case &c) { defaults(c, P[i]); }).cpuSeconds = 20;
    r.bounds = strf("%zu API histories; %zu programs x 7 ways of running them instruction by instruction; %zu limits covering every new high of every history; limits set after %s instruction of %zu programs x 6 values; all helper sequences to length %d over %zu operations and 2 blocks; %d size/count pairs x 4 forms", H.size(), Q.size(), L.size(), th ? "every" : "every 9th", P.size(), depth, O.size(), (int)(N * N));
    (void)base;
    r.assumptions = {"the VM's own control structure may be left out of the figures", "compiling directly from a file uses the system heap, as documented"};
}

#include "host.h"
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif

using mc::strf;

Ledger *gFallbackLedger = nullptr;

uint64_t gRawAllocs = 0, gRawFrees = 0, gRawCalls = 0, gRawFailed = 0; int64_t gRawLive = 0, gRawFailAt = -1; bool gRawPersistent = false;
extern "C" {
static bool rawFail(size_t n) {
    if(n >= (1ull << 40)) return true; // no machine has that much
    return gRawFailAt >= 0 && (gRawPersistent ? (int64_t)gRawCalls >= gRawFailAt : (int64_t)gRawCalls == gRawFailAt);
}
void *nkv_malloc(size_t n) { bool f = rawFail(n); gRawAllocs++; gRawCalls++; void *p = f ? nullptr : malloc(n); if(p) gRawLive++; else gRawFailed++; return p; }
void *nkv_calloc(size_t n, size_t m) { bool f = rawFail(n * m); gRawAllocs++; gRawCalls++; void *p = f ? nullptr : calloc(n, m); if(p) gRawLive++; else gRawFailed++; return p; }
void *nkv_realloc(void *p, size_t n) { bool f = rawFail(n); gRawAllocs++; gRawCalls++; void *q = f ? nullptr : realloc(p, n); if(q && !p) gRawLive++; if(!q) gRawFailed++; return q; }
void nkv_free(void *p) { if(p) gRawFrees++, gRawLive--; free(p); }
}

struct Hdr { uint64_t magic; Ledger *led; uint64_t size; Hdr *next, *prev; uint64_t pad; };
static const uint64_t LIVE = 0x4c495645424c4f43ull, DEAD = 0x4445414442524f4bull;

void *Pool::get(uint64_t size) {
    auto &v = idle[size];
    if(v.empty()) return malloc(size);
    void *p = v.back(); v.pop_back(); reused++;
    UNPOISON(p, size);
    return p;
}
void Pool::put(void *p, uint64_t size) { POISON(p, size); idle[size].push_back(p); }
Pool::~Pool() { for(auto &e : idle) for(void *p : e.second) { UNPOISON(p, e.first); free(p); } }

void *ledgerMalloc(nkuint32_t size, void *ud) {
    Ledger *l = (Ledger *)ud;
    if(!l) { l = gFallbackLedger; l->noContext = true; }
    uint64_t n = l->calls++;
    if(!n) l->first = size;
    if(size > l->maxRequest) l->maxRequest = size;
    if(l->log) *l->log += strf("m%u ", size);
    if(l->teardownFail || (l->failAt >= 0 && (n == (uint64_t)l->failAt || (l->persistent && n > (uint64_t)l->failAt))) ||
       l->bytes + size > l->cap) { l->failed++; return nullptr; }
    Hdr *h = (Hdr *)(l->pool ? l->pool->get(sizeof(Hdr) + size) : malloc(sizeof(Hdr) + size));
    if(!h) { l->failed++; return nullptr; }
    h->magic = LIVE; h->led = l; h->size = size; h->prev = nullptr; h->next = (Hdr *)l->head;
    if(h->next) { UNPOISON(h->next, sizeof(Hdr)); h->next->prev = h; POISON(h->next, sizeof(Hdr)); }
    l->head = h;
    l->bytes += size; l->blocks++;
    if(l->bytes > l->peakBytes) l->peakBytes = l->bytes;
    if(l->usage) l->usage->push_back(l->bytes);
    memset(h + 1, 0xa5, size); // never hand out conveniently zeroed memory
    void *r = h + 1;
    POISON(h, sizeof(Hdr));
    return r;
}

void ledgerFree(void *p, void *ud) {
    Ledger *l = (Ledger *)ud;
    if(!l) { l = gFallbackLedger; l->noContext = true; }
    if(!p) return;
    Hdr *h = (Hdr *)p - 1;
    UNPOISON(h, sizeof(Hdr));
    if(h->magic != LIVE) {
        l->problem = h->magic == DEAD ? "block freed twice" : "freed a block the host never provided";
        abort();
    }
    if(h->led != l) l->problem = "block returned with another allocator's context";
    l = h->led;
    h->magic = DEAD;
    if(h->next) { UNPOISON(h->next, sizeof(Hdr)); h->next->prev = h->prev; POISON(h->next, sizeof(Hdr)); }
    if(h->prev) { UNPOISON(h->prev, sizeof(Hdr)); h->prev->next = h->next; POISON(h->prev, sizeof(Hdr)); }
    else l->head = h->next;
    l->bytes -= h->size; l->blocks--; l->frees++;
    if(l->log) *l->log += strf("f%u ", (unsigned)h->size);
    memset(h + 1, 0x5a, h->size);
    if(l->pool) l->pool->put(h, sizeof(Hdr) + h->size); else free(h);
}

nkbool streamRW(void *data, nkuint32_t size, void *ud, nkbool writeMode) {
    Stream *s = (Stream *)ud;
    s->calls++;
    if(s->failAfter >= 0 && (int64_t)(s->pos + size) > s->failAfter) return nkfalse;
    if(writeMode) { s->buf.append((const char *)data, size); s->pos += size; return nktrue; }
    if(s->pos + size > s->buf.size() || s->pos + size < s->pos) return nkfalse;
    memcpy(data, s->buf.data() + s->pos, size);
    s->pos += size;
    return nktrue;
}

const char *gReprKeys[] = {"a", "b", "c", "n", "v", "k", "x", "y", "next", "_data", nullptr};

std::string Host::repr(NKValue *v, int d) {
    int vt; memcpy(&vt, &v->type, sizeof vt); // a damaged save may carry any number here
    switch(vt) {
    case NK_VALUETYPE_INT: return strf("i%d", v->intData);
    case NK_VALUETYPE_FLOAT: return isnan(v->floatData) ? "fnan" : strf("f%.9g", v->floatData);
    case NK_VALUETYPE_STRING: { const char *s = nkxValueToString(vm, v); return s ? "'" + std::string(s) + "'" : "'<null>'"; }
    case NK_VALUETYPE_FUNCTIONID: return "fn";
    case NK_VALUETYPE_NIL: return "nil";
    case NK_VALUETYPE_OBJECTID: {
        std::string r;
        NKVMExternalDataTypeID t = nkxVmObjectGetExternalType(vm, v);
        if(t.id == tRes.id && t.id != NK_INVALID_VALUE) { Res *x = (Res *)nkxVmObjectGetExternalData(vm, v); r += x ? strf("Res%d", x->id) : "Res?"; }
        else if(t.id != NK_INVALID_VALUE) r += std::string("<") + nkxVmGetExternalTypeName(vm, t) + ">";
        r += strf("{#%u", nkxVmObjectGetSize(vm, v));
        if(d > 0) {
            NKValue ob = *v;
            for(int i = 0; gReprKeys[i]; i++) {
                NKValue k; memset(&k, 0, sizeof k);
                nkxValueSetString(vm, &k, gReprKeys[i]);
                NKValue *f = nkxVmObjectFindOrAddEntry(vm, &ob, &k, nktrue);
                if(f) { NKValue c = *f; r += std::string(" ") + gReprKeys[i] + "=" + repr(&c, d - 1); }
            }
            for(int i = 0; i < 4; i++) {
                NKValue k; memset(&k, 0, sizeof k);
                nkxValueSetInt(vm, &k, i);
                NKValue *f = nkxVmObjectFindOrAddEntry(vm, &ob, &k, nktrue);
                if(f) { NKValue c = *f; r += strf(" %d=", i) + repr(&c, d - 1); }
            }
        }
        return r + "}";
    }
    default: return strf("?%u", v->type_uint);
    }
}

static Host *hostOf(NKVMFunctionCallbackData *d) {
    Host *h = (Host *)nkxGetUserData(d->vm);
    h->nativeCalls++;
    if(h->dead) h->problems.push_back("native called on a dead VM");
    if(nkxVmHasAllocationFailure(d->vm)) h->problems.push_back("native entered although the VM reports allocation failure");
    if(h->lookInNatives) h->lookInNatives(*h);
    return h;
}
struct Enter { Host *h; Enter(Host *h) : h(h) { h->depth++; } ~Enter() { h->depth--; } };

static void perturb(Host *h) {
    if(h->gcInNatives) nkxVmGarbageCollect(h->vm);
    if(h->shrinkInNatives) nkxVmShrink(h->vm);
}

static void nPrint(NKVMFunctionCallbackData *d) {
    Host *h = hostOf(d);
    std::string s;
    for(nkuint32_t i = 0; i < d->argumentCount; i++) { if(i) s += ","; NKValue v = d->arguments[i]; s += h->repr(&v); }
    h->out += s + ";";
    perturb(h);
}
static void nGc(NKVMFunctionCallbackData *d) { Host *h = hostOf(d); nkxVmGarbageCollect(h->vm); }
static void nError(NKVMFunctionCallbackData *d) {
    Host *h = hostOf(d); (void)h;
    const char *s = d->argumentCount ? nkxValueToString(d->vm, &d->arguments[0]) : "native error";
    nkxAddError(d->vm, s ? s : "?");
}
// res([ref]) -> new object of the native type, optionally referring to a script value through native data
static void nRes(NKVMFunctionCallbackData *d) {
    Host *h = hostOf(d);
    NKValue ob; memset(&ob, 0, sizeof ob);
    nkxCreateObject(d->vm, &ob);
    if(nkxVmHasAllocationFailure(d->vm)) return;
    if(!nkxVmObjectSetExternalType(d->vm, &ob, h->tRes)) return;
    while(h->live.count(h->nextRes)) h->nextRes++;
    Res *r = new Res; r->id = h->nextRes++; r->hasRef = false;
    if(d->argumentCount) { r->hasRef = true; r->ref = d->arguments[0]; }
    if(!nkxVmObjectSetExternalData(d->vm, &ob, r)) { delete r; return; }
    h->live[r->id] = r;
    d->returnValue = ob;
}
static void nResRef(NKVMFunctionCallbackData *d) {
    Host *h = hostOf(d);
    Res *r = (Res *)nkxFunctionCallbackGetExternalDataArgument(d, "resref", 0, h->tRes);
    if(r && r->hasRef) d->returnValue = r->ref;
}
static void nHold(NKVMFunctionCallbackData *d) { // hold(slot, ob)
    Host *h = hostOf(d);
    if(d->argumentCount < 2) return;
    int slot = nkxValueToInt(d->vm, &d->arguments[0]);
    nkxVmObjectAcquireHandle(d->vm, &d->arguments[1]);
    if(!nkxVmHasErrors(d->vm)) h->held[slot] = d->arguments[1];
}
static void nUnhold(NKVMFunctionCallbackData *d) { // unhold(slot) -> ob
    Host *h = hostOf(d);
    if(d->argumentCount < 1) return;
    int slot = nkxValueToInt(d->vm, &d->arguments[0]);
    auto it = h->held.find(slot);
    if(it == h->held.end()) return;
    d->returnValue = it->second;
    nkxVmObjectReleaseHandle(d->vm, &it->second);
    h->held.erase(slot);
}
static void nHeld(NKVMFunctionCallbackData *d) { // held(slot) -> ob
    Host *h = hostOf(d);
    if(d->argumentCount < 1) return;
    auto it = h->held.find(nkxValueToInt(d->vm, &d->arguments[0]));
    if(it != h->held.end()) d->returnValue = it->second;
}
static void nCall(NKVMFunctionCallbackData *d) { // call(f, args...) -> f(args...)
    Host *h = hostOf(d);
    if(d->argumentCount < 1 || h->depth > 20) return;
    Enter e(h);
    std::vector<NKValue> a(d->arguments, d->arguments + d->argumentCount);
    NKValue r; memset(&r, 0, sizeof r); r.type = NK_VALUETYPE_NIL;
    perturb(h);
    if(h->shrinkInNatives) a.assign(d->arguments, d->arguments + d->argumentCount); // values may have been renumbered
    nkxVmCallFunction(d->vm, &a[0], d->argumentCount - 1, a.size() > 1 ? &a[1] : nullptr, &r);
    if(!nkxVmHasErrors(d->vm)) d->returnValue = r;
}
static void nStr(NKVMFunctionCallbackData *d) { // str(v) -> string
    hostOf(d);
    if(d->argumentCount < 1) return;
    const char *s = nkxValueToString(d->vm, &d->arguments[0]);
    if(s) { std::string t = s; nkxValueSetString(d->vm, &d->returnValue, t.c_str()); }
}
static void nHook(NKVMFunctionCallbackData *d) { Host *h = hostOf(d); if(h->onHook) h->onHook(*h, d); }

static void nNfn(NKVMFunctionCallbackData *d); // nfn(name) -> function value of that native

static void resSerialize(NKVM *vm, NKValue *v, void *data) {
    Host *h = (Host *)nkxGetUserData(vm);
    if(nkxSerializerGetWriteMode(vm)) {
        Res *r = (Res *)data;
        if(!r && h->noDataOk) return;
        if(!r) { h->problems.push_back("serialisation callback without native data"); return; }
        nkuint32_t id = r->id, has = r->hasRef;
        nkxSerializeData(vm, &id, 4); nkxSerializeData(vm, &has, 4);
        if(has) nkxSerializeData(vm, &r->ref, sizeof(NKValue));
    } else {
        nkuint32_t id = 0, has = 0; NKValue ref; memset(&ref, 0, sizeof ref);
        if(!nkxSerializeData(vm, &id, 4) || !nkxSerializeData(vm, &has, 4)) return;
        if(has && !nkxSerializeData(vm, &ref, sizeof(NKValue))) return;
        Res *r = new Res; r->id = id; r->hasRef = has; r->ref = ref;
        if(!nkxVmObjectSetExternalData(vm, v, r)) { delete r; return; }
        while(h->live.count(r->id)) r->id += 1000000; // damaged saves may repeat ids
        h->live[r->id] = r;
    }
}
static void resCleanup(NKVM *vm, NKValue *v, void *data) {
    Host *h = (Host *)nkxGetUserData(vm);
    Res *r = (Res *)data;
    if(!r) return; // a damaged save may restore the type without its data
    auto it = h->live.find(r->id);
    if(it == h->live.end() || it->second != r) { h->problems.push_back(strf("cleanup callback for native data that is not alive (cleaned %d times before)", h->cleaned.count(r->id) ? h->cleaned[r->id] : 0)); return; }
    h->cleaned[r->id]++;
    h->live.erase(it);
    delete r;
}
static void resMark(NKVM *vm, NKValue *v, void *data, NKVMGCState *gc) {
    Res *r = (Res *)data;
    if(r && r->hasRef) nkxVmGarbageCollect_markValue(vm, gc, &r->ref);
}
static void subCleanup(NKVM *vm, void *data) {
    Host *h = (Host *)data;
    h->subCleaned++;
    if(h->vm && h->vm != vm) h->problems.push_back("subsystem cleaned up with the wrong VM");
    // Documented recipe: find and destroy lingering objects this subsystem owns (works after failures too).
    nkuint32_t i = 0; NKValue v;
    if(h->tRes.id != NK_INVALID_VALUE && nkxVmHasAllocationFailure(vm)) {
        while(nkxGetNextObjectOfExternalType(vm, h->tRes, &v, &i)) {
            Res *r = (Res *)nkxVmObjectGetExternalData(vm, &v);
            if(!r) continue;
            auto it = h->live.find(r->id);
            if(it != h->live.end() && it->second == r) { h->cleaned[r->id]++; h->live.erase(it); delete r; }
        }
    }
}
static void subSerialize(NKVM *vm, void *data) {
    Host *h = (Host *)data;
    if(nkxSerializerGetWriteMode(vm)) {
        h->subSaved++;
        nkuint32_t n = h->subData.size();
        nkxSerializeData(vm, &n, 4);
        std::string t = h->subData;
        if(n) nkxSerializeData(vm, &t[0], n);
    } else {
        h->subLoaded++;
        nkuint32_t n = 0;
        if(!nkxSerializeData(vm, &n, 4) || n > 100000) return;
        std::string t(n, 0);
        if(n && !nkxSerializeData(vm, &t[0], n)) return;
        h->subData = t;
    }
}

bool Host::create() {
    NKVMCreateParams p;
    p.mallocReplacement = ledgerMalloc;
    p.freeReplacement = ledgerFree;
    p.mallocAndFreeReplacementUserData = &led;
    gFallbackLedger = &led;
    vm = nkxVmCreateEx(&p);
    if(vm) nkxSetUserData(vm, this);
    return vm && !nkxVmHasErrors(vm);
}
bool Host::compiler() { cs = nkxCompilerCreate(vm); return cs != nullptr; }

static const struct { const char *name; NKVMFunctionCallback f; } gNatives[] = {
    {"print", nPrint}, {"gc", nGc}, {"error", nError}, {"res", nRes}, {"resref", nResRef}, {"hold", nHold},
    {"unhold", nUnhold}, {"held", nHeld}, {"call", nCall}, {"str", nStr}, {"hook", nHook}, {"nfn", nNfn},
};
static void nNfn(NKVMFunctionCallbackData *d) {
    hostOf(d);
    const char *s = d->argumentCount ? nkxValueToString(d->vm, &d->arguments[0]) : nullptr;
    std::string name = s ? s : "";
    for(auto &n : gNatives) if(name == n.name) {
        NKVMExternalFunctionID e = nkxVmRegisterExternalFunction(d->vm, n.name, n.f);
        NKVMInternalFunctionID f = nkxVmGetOrCreateInternalFunctionForExternalFunction(d->vm, e);
        nkxValueSetFunction(d->vm, &d->returnValue, f);
    }
}

bool Host::natives() {
    tRes = nkxVmRegisterExternalType(vm, "Res", resSerialize, resCleanup, resMark);
    tOther = nkxVmRegisterExternalType(vm, "Other", nullptr, nullptr, nullptr);
    if(subMode != 1) nkxInitSubsystem(vm, cs, "hostsub", this, subCleanup, subSerialize);
    if(subMode) nkxInitSubsystem(vm, cs, "plain", &plain, nullptr, nullptr);
    const int N = sizeof(gNatives) / sizeof *gNatives;
    for(int i = 0; i < N; i++) {
        auto &n = gNatives[nativeOrder == 0 ? i : nativeOrder == 1 ? N - 1 - i : (i * nativeOrder + 3) % N /* stride coprime to N */];
        nkxVmSetupExternalFunction(vm, cs, n.name, n.f, nktrue, NK_INVALID_VALUE);
    }
    return !nkxVmHasErrors(vm);
}
bool Host::nativesMasked(int mask) {
    mask--;
    if(!(mask & 1)) tRes = nkxVmRegisterExternalType(vm, "Res", resSerialize, resCleanup, resMark);
    if(!(mask & 2)) tOther = nkxVmRegisterExternalType(vm, "Other", nullptr, nullptr, nullptr);
    if(!(mask & 4)) nkxInitSubsystem(vm, cs, "hostsub", this, subCleanup, subSerialize);
    if(mask & 8) { nkxVmRegisterExternalType(vm, "Extra", nullptr, nullptr, nullptr); }
    int N = sizeof(gNatives) / sizeof *gNatives;
    int skip = mask >> 4; // 0: all, k: without the natives whose bit pattern is set
    for(int i = 0; i < N; i++) if(!(skip >> (i % 6) & 1)) nkxVmSetupExternalFunction(vm, cs, gNatives[i].name, gNatives[i].f, nktrue, NK_INVALID_VALUE);
    return true;
}
bool Host::compile(const std::string &src, const char *file) { return nkxCompilerCompileScript(cs, src.c_str(), file); }
bool Host::finalize() { if(cs) nkxCompilerFinalize(cs); cs = nullptr; return !nkxVmHasErrors(vm); }
bool Host::load(const std::string &src, const char *file) {
    if(!create()) return false;
    if(!compiler()) return false;
    natives();
    bool ok = compile(src, file);
    finalize();
    return ok && !hasErrors();
}
std::string Host::errors() {
    if(!nkxVmHasErrors(vm)) return "";
    nkuint32_t n = nkxGetErrorLength(vm);
    std::string s(n + 1, 0);
    nkxGetErrorText(vm, &s[0]);
    return s.c_str();
}
void Host::destroy() {
    if(!vm) return;
    gFallbackLedger = &led;
    NKVM *v = vm;
    nkxVmDelete(v);
    vm = nullptr; cs = nullptr; dead = true;
    if(led.blocks) problems.push_back(strf("%llu blocks (%llu bytes) not returned to the host when the VM was deleted", (unsigned long long)led.blocks, (unsigned long long)led.bytes));
    if(!led.problem.empty()) problems.push_back(led.problem);
}
Host::~Host() {
    if(vm) destroy();
    for(auto &kv : live) delete kv.second;
    // leaked blocks: drop them so that a long enumeration does not grow
    while(led.head) { Hdr *h = (Hdr *)led.head; UNPOISON(h, sizeof(Hdr)); led.head = h->next; free(h); }
}
bool Host::save(Stream &s) { return nkxVmSerialize(vm, streamRW, &s, nktrue); }
bool Host::restore(Stream &s) { s.pos = 0; return nkxVmSerialize(vm, streamRW, &s, nkfalse); }
std::string Host::globalsRepr(const std::vector<std::string> &names) {
    std::string r;
    for(auto &n : names) {
        NKValue *v = nkxVmFindGlobalVariable(vm, nullptr, n.c_str());
        if(v) { NKValue c = *v; r += n + "=" + repr(&c) + ";"; } else r += n + "=?;";
    }
    return r;
}
std::string Host::key() const { return out; }

Outcome runPlain(const std::string &src, uint64_t *n) {
    Outcome o;
    Host h;
    if(h.load(src)) {
        if(n) {
            uint64_t c = 0;
            while(!nkxVmProgramHasEnded(h.vm) && !h.hasErrors() && c < 2000000) { nkxVmIterate(h.vm, 1); c++; }
            *n = c;
        } else h.run();
    }
    o.ended = nkxVmProgramHasEnded(h.vm);
    o.out = h.out;
    o.err = h.errors();
    return o;
}
std::string firstLine(const std::string &s) { return s.substr(0, s.find('\n')); }

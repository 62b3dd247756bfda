// Embedding harness: a host application for the real library, using only the public nkx API.
#pragma once
#include "mc.h"
#include <string.h>
extern "C" {
#include "nkx.h"
}
#include <string>
#include <vector>
#include <map>
#include <set>

// Gives freed blocks out again at once, newest first, as plain allocators do (unlike the sanitizer's).
struct Pool {
    std::map<uint64_t, std::vector<void *>> idle;
    uint64_t reused = 0;
    void *get(uint64_t size);
    void put(void *p, uint64_t size);
    ~Pool();
};
// Host allocator with a ledger, fault injection and misuse detection.
struct Ledger {
    uint64_t calls = 0, frees = 0;
    int64_t failAt = -1;       // fail request number failAt (0-based) ...
    bool persistent = false;   // ... and every later one
    bool teardownFail = false; // fail everything from now on
    uint64_t bytes = 0, blocks = 0, peakBytes = 0, maxRequest = 0;
    uint64_t cap = 400u << 20;
    bool noContext = false;    // a callback came without the host's context pointer
    std::string problem;
    void *head = nullptr;
    uint64_t failed = 0;
    std::string *log = nullptr;
    uint64_t first = 0;                    // size of the first request
    std::vector<uint64_t> *usage = nullptr; // bytes outstanding after each request
    Pool *pool = nullptr;                   // where blocks come from (none: malloc)
};
void *ledgerMalloc(nkuint32_t size, void *ud);
void ledgerFree(void *p, void *ud);
extern uint64_t gRawAllocs, gRawFrees, gRawCalls, gRawFailed; // calls the library made to malloc / calloc / realloc itself (the build redirects them)
extern int64_t gRawLive, gRawFailAt; // blocks outstanding; fail that call (counted by gRawCalls) ...
extern bool gRawPersistent;          // ... and every later one
extern Ledger *gFallbackLedger; // used when the library does not hand the context pointer back

struct Host;
// Native data attached to script objects of the host's types.
struct Res {
    int id;
    bool hasRef;
    NKValue ref;
};

struct Stream {
    std::string buf;
    size_t pos = 0;
    int64_t failAfter = -1; // writer/reader answers false once this many bytes have been transferred
    uint64_t calls = 0;
};
nkbool streamRW(void *data, nkuint32_t size, void *ud, nkbool writeMode);

struct Host {
    NKVM *vm = nullptr;
    NKCompilerState *cs = nullptr;
    Ledger led;
    std::string out;                    // everything script-visible natives recorded, in order
    std::map<int, int> cleaned;         // Res id -> cleanup count
    std::map<int, Res *> live;          // Res id -> live native data
    std::map<int, NKValue> held;        // handles held by the host (by slot)
    std::vector<std::string> problems;  // contract violations seen by callbacks
    int nextRes = 1;
    int nativeCalls = 0;
    int depth = 0;
    bool dead = false;                  // VM no longer valid for callbacks
    bool ran = false;
    bool tracing = true;
    NKVMExternalDataTypeID tRes{NK_INVALID_VALUE}, tOther{NK_INVALID_VALUE};
    // subsystem
    int subCleaned = 0, subSaved = 0, subLoaded = 0;
    std::string subData = "sub";
    // scripted behaviours
    std::function<void(Host &, NKVMFunctionCallbackData *)> onHook; // native hook(...) calls this
    bool noDataOk = false; // a partly loaded VM has native objects whose data never arrived
    bool gcInNatives = false, shrinkInNatives = false;
    std::function<void(Host &)> lookInNatives; // called at the start of every native call
    int subMode = 0;               // 0: subsystem with callbacks, 1: one without, 2: both
    char plain = 0;                // the data of the one without
    int nativeOrder = 0;           // 0: as listed, 1: reversed, n: permuted with stride n (coprime to 12)

    Host() {}
    Host(const Host &) = delete;
    ~Host();
    bool create();                 // VM only
    bool natives();                // register natives (through the compiler if there is one)
    bool nativesMasked(int mask);  // a damaged registration set (for C09)
    bool compiler();
    bool compile(const std::string &src, const char *file = "t.nks");
    bool finalize();
    // create + compiler + natives + compile + finalize; true if no errors
    bool load(const std::string &src, const char *file = "t.nks");
    bool run() { return nkxVmExecuteProgram(vm); }
    std::string errors();          // full error text
    bool hasErrors() { return nkxVmHasErrors(vm); }
    void destroy();                // delete the VM; checks the ledger is empty
    bool save(Stream &s);
    bool restore(Stream &s);       // into this (created, natives registered) VM
    std::string globalsRepr(const std::vector<std::string> &names);
    std::string repr(NKValue *v, int depth = 3);
    std::string key() const;       // out + errors
};

// Strings used as field names by repr() when it walks objects.
extern const char *gReprKeys[];

struct Outcome { std::string out, err; bool ended; };
// Compile and run without perturbation.
Outcome runPlain(const std::string &src, uint64_t *instructions = nullptr);
std::string firstLine(const std::string &s);

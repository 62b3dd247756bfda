// uses: lang.cpp corpus.cpp
// C09: damaged, truncated or foreign saves never harm the host.
#include "corpus.h"
#include <memory>
using namespace mc;
using std::string;
using std::vector;

struct Seed { const char *name; string src; uint64_t at; string bytes; };

static vector<Seed> seeds(bool th) {
    vector<Seed> v = {
        {"coro", "var a = object(); var co;\nfunction g(x) { var l = object(); l.v = \"s\" + x; a.n = yield(l); return l; }\nfunction w(c) { var r = resume(c); yield(r.v); return r; }\nco = coroutine(w, coroutine(g, 4));\nprint(resume(co)); a.co = co; hold(1, a);\nprint(is_finished(co), a.co == co); print(resume(co)); gc(); print(len(a));", 0, ""},
        {"deep", "var o = object(); o.k = res(); o[1] = \"one\"; o[o] = 2.5; o[print] = nil;\nfunction f(n) { var l = \"l\" + n; if(n == 0) { o[l] = object(); return call(f2, o); } return f(n - 1) + l; }\nfunction f2(x) { return x.k; }", 0, ""},
        {"tiny", "var a = 1; while(a < 40) { a = a + 1; } print(a);", 0, ""},
    };
    v[1].src = "var o = object(); o.k = res(); o[1] = \"one\"; o[o] = 2.5; o.f = function(x) { return x; };\nfunction f(n) { var l = \"l\" + n; if(n == 0) { o[l] = object(); return \"z\"; } return f(n - 1) + l; }\nprint(f(2)); o = o.f(o); print(o.k, o.l0, call(o.f, 3)); gc(); print(o[o]);";
    for(auto &p : v) {
        // stop half way through (inside the coroutine / the recursion)
        corpus::Run b = corpus::baseline(p.src);
        uint64_t n = b.n, best = n / 2;
        Host h;
        corpus::start(h, p.src);
        for(uint64_t i = 0; i < best; i++) nkxVmIterate(h.vm, 1);
        Stream s;
        h.save(s);
        p.at = best;
        p.bytes = s.buf;
    }
    // also: a save of the coroutine program taken while the inner coroutine is running, and of an ended program
    Seed e = v[0]; e.name = "corodeep";
    corpus::Run b = corpus::baseline(e.src);
    for(uint64_t at = 0; at < b.n; at++) {
        Host h; corpus::start(h, e.src);
        for(uint64_t i = 0; i < at; i++) nkxVmIterate(h.vm, 1);
        Stream s; h.save(s);
        // the active-coroutine chain is written last: three entries means two coroutines deep
        if(s.buf.size() > 24) { uint32_t t; memcpy(&t, s.buf.data() + s.buf.size() - 16, 4); uint32_t t2; memcpy(&t2, s.buf.data() + s.buf.size() - 24, 4); if(t == NK_VALUETYPE_OBJECTID && t2 == NK_VALUETYPE_OBJECTID) { e.at = at; e.bytes = s.buf; } }
    }
    if(!e.bytes.empty()) v.push_back(e);
    return v;
}

// Everything an application may reasonably do with whatever came out of the load.
static void exercise(Case &c, Host &h, bool ok, unsigned how) {
    NKVM *vm = h.vm;
    bool hadErrors = nkxVmHasErrors(vm);
    if(!ok) c.outcome(hadErrors ? "refused with an error" : "refused");
    else c.outcome(hadErrors ? "accepted, VM carries errors" : "accepted");
    h.errors();
    nkxVmProgramHasEnded(vm); nkxVmHasAllocationFailure(vm);
    nkuint32_t it = 0; NKValue v;
    int guard = 0;
    while(nkxGetNextObjectOfExternalType(vm, h.tRes, &v, &it) && guard++ < 100000) nkxVmObjectGetExternalData(vm, &v);
    if(guard >= 100000) c.fail("enumerating native objects does not end");
    auto inspect = [&]() { if(!nkxVmHasErrors(vm)) h.globalsRepr({"a", "co", "o", "f", "g"}); };
    auto runIt = [&]() {
        nkxSetRemainingInstructionLimit(vm, 2000);
        h.out.clear();
        uint64_t before = h.nativeCalls;
        nkxVmIterate(vm, 200);
        bool e = nkxVmHasErrors(vm);
        nkxVmExecuteProgram(vm);
        if(e && h.nativeCalls > (int)before + 100000) c.fail("runs on after an error");
    };
    if(how & 1) { inspect(); nkxVmGarbageCollect(vm); nkxVmShrink(vm); }
    if(how & 2) { Stream s; nkxVmSerialize(vm, streamRW, &s, nktrue); if(s.buf.size() > (64u << 20)) c.fail("save of a damaged VM is enormous"); }
    runIt();
    inspect();
    nkxVmGarbageCollect(vm);
    nkxVmShrink(vm);
    if(!(how & 2)) { Stream s; nkxVmSerialize(vm, streamRW, &s, nktrue); }
    // host calls whatever the program's functions became
    for(const char *g : {"f", "g", "w", "o", "co"}) {
        if(nkxVmHasErrors(vm)) break;
        NKValue *f = nkxVmFindGlobalVariable(vm, nullptr, g);
        if(!f) continue;
        NKValue fv = *f, arg, r; memset(&arg, 0, sizeof arg); memset(&r, 0, sizeof r);
        nkxValueSetInt(vm, &arg, 1);
        nkxSetRemainingInstructionLimit(vm, 2000);
        nkxVmCallFunction(vm, &fv, 1, &arg, &r);
    }
    h.errors();
    c.state(hashStr(h.out));
}
static vector<Seed> S;
// prior: the VM has run another program up to the point where that one was saved (+1: and has met an error, and collected).
// Afterwards a good save is restored into the same VM and must work.
static void tryLoad(Case &c, const string &bytes, unsigned how, int nativesMode, bool limit, int prior = -1, const Seed *good = nullptr, const corpus::Run *goodRun = nullptr) {
    Host h;
    if(prior >= 0) {
        auto &o = S[prior / 2];
        if(!corpus::start(h, o.src)) { c.fail("harness: prior"); return; }
        nkxVmIterate(h.vm, o.at);
        if(prior & 1) { nkxVmGarbageCollect(h.vm); nkxAddError(h.vm, "an error from before"); }
    } else {
        if(!h.create()) { c.fail("harness: create"); return; }
        if(nativesMode == 0) h.natives();
        else h.nativesMasked(nativesMode);
    }
    if(limit) { nkxSetMaxAllocatedMemory(h.vm, 4u << 20); nkxSetMaxStackSize(h.vm, 20000); }
    else h.led.cap = 64u << 20;
    // A sandboxing application sets its instruction limit before it loads anything.
    nkxSetRemainingInstructionLimit(h.vm, 2000);
    Stream s; s.buf = bytes;
    bool ok = h.restore(s);
    h.noDataOk = true;
    exercise(c, h, ok, how);
    c.trace(); c.trans(3);
    if(good && !nkxVmHasAllocationFailure(h.vm)) {
        nkxSetRemainingInstructionLimit(h.vm, NK_INVALID_VALUE);
        nkxSetMaxAllocatedMemory(h.vm, NK_INVALID_VALUE); nkxSetMaxStackSize(h.vm, NK_INVALID_VALUE);
        h.held.clear(); h.nextRes = 100; h.out.clear();
        Stream g; g.buf = good->bytes;
        if(!h.restore(g) || nkxVmHasErrors(h.vm)) c.fail("a good save could not be restored after this: %s", h.errors().c_str());
        else {
            nkxVmExecuteProgram(h.vm);
            if(!nkxVmProgramHasEnded(h.vm) || h.out != goodRun->out || h.errors() != goodRun->err) c.fail("a good save restored after this does not run as before: %s %s, not %s %s", h.out.c_str(), h.errors().c_str(), goodRun->out.c_str(), goodRun->err.c_str());
        }
    }
    h.destroy();
    for(auto &p : h.problems) c.fail("%s", p.c_str());
}

void define(Registry &r) {
    r.level = "model_checking";
    r.rule = "valid saves of programs stopped inside functions and coroutines, cut at every byte, with every byte replaced by several values, every 32-bit word replaced by boundary values, byte ranges removed or duplicated, and loaded with native functions or types missing, into fresh VMs and into VMs that already ran another program, with and without errors; afterwards the VM is inspected, run under a limit, collected, shrunk, saved, called and deleted";
    bool th = r.thorough();
    S = seeds(th);
    static vector<corpus::Run> rest; rest.resize(S.size());
    for(size_t k = 0; k < S.size(); k++) { // what each save prints when it runs on
        Host h; h.create(); h.natives(); h.nextRes = 100;
        Stream s; s.buf = S[k].bytes;
        h.restore(s); nkxVmExecuteProgram(h.vm);
        rest[k].out = h.out; rest[k].err = h.errors();
    }
    static const uint8_t BV[] = {0x00, 0xff, 0x01, 0x7f, 0x80};
    static const uint32_t WV[] = {0, 1, 2, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x00010000u, 0x3fffffffu, 16, 7};
    for(size_t k = 0; k < S.size(); k++) {
        uint64_t n = S[k].bytes.size();
        // The large regular parts (position markers, instructions) dominate the size: quick covers every cut and every
        // word; thorough every value of every byte.
        r.add(strf("cut/%s", S[k].name), n, [k](uint64_t i, Case &c) {
            c.desc("save of '%s' at instruction %llu (%zu bytes) cut to %llu bytes", S[k].name, (unsigned long long)S[k].at, S[k].bytes.size(), (unsigned long long)i);
            c.nontrivial(i);
            tryLoad(c, S[k].bytes.substr(0, i), i & 3, 0, i & 4);
        }).cpuSeconds = 5;
        uint64_t NB = th ? 256 : 5;
        r.add(strf("byte/%s", S[k].name), n * NB, [k, NB](uint64_t i, Case &c) {
            uint64_t pos = i / NB; uint8_t v = NB == 256 ? i % NB : i % NB == 4 ? (uint8_t)S[k].bytes[pos] + 1 : BV[i % NB];
            string b = S[k].bytes;
            if((uint8_t)b[pos] == v) return;
            c.desc("save of '%s' with byte %llu of %zu changed from %02x to %02x", S[k].name, (unsigned long long)pos, b.size(), (uint8_t)b[pos], v);
            b[pos] = v;
            c.nontrivial(i);
            tryLoad(c, b, pos & 3, 0, (pos + i) & 1);
            if(i % 5000 == 0) c.sample(strf("byte %llu of '%s' set to %02x", (unsigned long long)pos, S[k].name, v));
        }).cpuSeconds = 5;
        const uint64_t NW = sizeof(WV) / sizeof *WV;
        r.add(strf("word/%s", S[k].name), (n - 3) * NW, [k, NW](uint64_t i, Case &c) {
            uint64_t pos = i / NW; uint32_t v = WV[i % NW];
            string b = S[k].bytes;
            // Fields are not aligned in the stream; every offset is a candidate, but only offsets whose current word is
            // a plausible field (small or all-ones) are worth a word replacement.
            uint32_t cur; memcpy(&cur, &b[pos], 4);
            if(cur == v || (cur > 0x00ffffff && cur != 0xffffffffu)) return;
            if(pos && b[pos - 1] != 0 && (uint8_t)b[pos - 1] != 0xff) return;
            c.desc("save of '%s' with the word at byte %llu of %zu changed from %x to %x", S[k].name, (unsigned long long)pos, b.size(), cur, v);
            memcpy(&b[pos], &v, 4);
            c.nontrivial(i);
            tryLoad(c, b, (pos >> 2) & 3, 0, i & 1);
        }).cpuSeconds = 5;
        r.add(strf("splice/%s", S[k].name), n * 4, [k](uint64_t i, Case &c) {
            uint64_t pos = i / 4; int how = i % 4;
            string b = S[k].bytes;
            static const int L[] = {4, 8, 1, 8};
            if(how < 3) b.erase(pos, L[how]); else b.insert(pos, b.substr(pos, 8));
            c.desc("save of '%s' with %d bytes %s at byte %llu", S[k].name, L[how], how < 3 ? "removed" : "duplicated", (unsigned long long)pos);
            c.nontrivial(i);
            tryLoad(c, b, i & 3, 0, pos & 1);
        }).cpuSeconds = 5;
        // restored over what another program left behind, and a good save restored after that
        r.add(strf("over/%s", S[k].name), n * (NW + 2), [k, NW](uint64_t i, Case &c) {
            uint64_t pos = i / (NW + 2), w = i % (NW + 2);
            string b = S[k].bytes, how;
            if(w < NW) {
                if(pos + 4 > b.size()) return;
                uint32_t cur; memcpy(&cur, &b[pos], 4);
                if(cur == WV[w] || (cur > 0x00ffffff && cur != 0xffffffffu)) return;
                if(pos && b[pos - 1] != 0 && (uint8_t)b[pos - 1] != 0xff) return;
                memcpy(&b[pos], &WV[w], 4);
                how = strf("save of '%s' with the word at byte %llu of %zu changed from %x to %x", S[k].name, (unsigned long long)pos, b.size(), cur, WV[w]);
            } else {
                how = strf("save of '%s' (%zu bytes) %s %llu", S[k].name, b.size(), w == NW ? "cut to" : "without byte", (unsigned long long)pos);
                if(w == NW) b.resize(pos); else b.erase(pos, 1);
            }
            int prior = (pos + w) % (2 * S.size()), g = (pos / 3 + w) % S.size();
            c.desc("%s; into a VM that has run '%s'%s, then a good save of '%s' into the same", how.c_str(), S[prior / 2].name, prior & 1 ? " and has an error" : "", S[g].name);
            c.nontrivial(i);
            tryLoad(c, b, (pos >> 2) & 3, 0, i & 1, prior, &S[g], &rest[g]);
        }).cpuSeconds = 5;
        r.add(strf("natives/%s", S[k].name), 1 << 10, [k](uint64_t i, Case &c) {
            c.desc("valid save of '%s' loaded with registration set %03llx", S[k].name, (unsigned long long)i);
            c.nontrivial(i);
            for(unsigned how = 0; how < 4; how++) tryLoad(c, S[k].bytes, how, (int)i + 1, how & 1);
        }).cpuSeconds = 5;
    }
    string sz; for(auto &s : S) sz += strf("%s%s %zu", sz.empty() ? "" : ", ", s.name, s.bytes.size());
    r.bounds = strf("saves (%s bytes): every cut, %s, 11 boundary words at every plausible field offset, every 1/4/8-byte removal and 8-byte duplication, 1024 sets of registered natives, types and subsystem; cuts and alterations loaded over another program and followed by a valid load into the same VM; with and without host memory and stack limits", sz.c_str(), th ? "all 256 values of every byte" : "5 values of every byte");
    r.assumptions = {"an application running untrusted saves sets an instruction limit, as documented", "native types' own load callbacks check what they read"};
}

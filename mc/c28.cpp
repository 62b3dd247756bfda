// uses: lang.cpp corpus.cpp history.cpp
// C28: looking at a VM never changes it. Every inspection the interface offers, including the state dump, is made at every
// instruction boundary, in every native call and after every step of every history - also with every allocation request
// failing, inside the dump too - and on whatever a damaged save left behind; nothing observable may differ afterwards.
#include "history.h"
#include <algorithm>
#include <stdio.h>
#include <stdlib.h>
using namespace mc;
using std::string;
using std::vector;

static string dump(NKVM *vm, const char *script = nullptr) {
    char *p = nullptr; size_t n = 0;
    FILE *f = open_memstream(&p, &n);
    nkxDbgDumpState(vm, script, f);
    fclose(f);
    string s(p, n); free(p);
    return s;
}
static string firstDiff(const string &a, const string &b) {
    size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = i; while(s && a[s - 1] != '\n') s--;
    return strf("'%s' became '%s' (line %d)", esc(a.substr(s, a.find('\n', i) - s).substr(0, 90)).c_str(), esc(b.substr(s, b.find('\n', i) - s).substr(0, 90)).c_str(), (int)std::count(a.begin(), a.begin() + i, '\n') + 1);
}
static uint64_t sink;
static void use(const void *p) { sink += p != nullptr; }
static void useS(const char *p) { if(p) sink += strlen(p); }
// Every inspection; n: which part (all when negative).
static const int PARTS = 6;
static void look(Host &h, int n = -1, const char *script = nullptr) {
    NKVM *vm = h.vm;
    auto part = [&](int k) { return n < 0 || n == k; };
    if(part(0)) {
        sink += nkxVmProgramHasEnded(vm) + nkxVmHasAllocationFailure(vm) + nkxVmHasErrors(vm) + nkxGetErrorCount(vm);
        sink += nkxVmGetCurrentMemoryUsage(vm) + nkxVmGetPeakMemoryUsage(vm) + nkxGetMaxStackSize(vm) + nkxGetMaxFieldsPerObject(vm) + nkxGetMaxAllocatedMemory(vm);
        sink += nkxGetGarbageCollectionInterval(vm) + nkxGetGarbageCollectionNewObjectInterval(vm) + nkxGetRemainingInstructionLimit(vm);
        use(nkxGetUserData(vm)); useS(h.errors().c_str());
        if(h.cs) sink += nkxCompilerGetInstructionWriteIndex(h.cs) + nkxCompilerIsAtRootContext(h.cs);
    }
    if(part(1)) {
        for(const char *t : {"Res", "Other", "coroutine", "nope", "", "Re", "Resx"}) {
            NKVMExternalDataTypeID id = nkxVmFindExternalType(vm, t);
            useS(nkxVmGetExternalTypeName(vm, id));
            nkuint32_t it = 0; NKValue v; int guard = 0;
            if(id.id != NK_INVALID_VALUE) while(nkxGetNextObjectOfExternalType(vm, id, &v, &it) && guard++ < 100000) { use(nkxVmObjectGetExternalData(vm, &v)); sink += nkxVmObjectGetExternalType(vm, &v).id; }
        }
        for(nkuint32_t i = 0; i < 6; i++) useS(nkxVmGetExternalTypeName(vm, NKVMExternalDataTypeID{i}));
        use(nkxGetExternalSubsystemData(vm, "hostsub")); use(nkxGetExternalSubsystemData(vm, "nope")); use(nkxGetExternalSubsystemData(vm, ""));
    }
    if(part(2)) {
        static const char *N[] = {"a", "b", "c", "co", "f", "g", "i", "n", "o", "p", "r", "s", "x", "y", "print", "hook", "", "zz", "t.nks"};
        for(auto nm : N) for(int via = 0; via < 2; via++) {
            NKValue *g = nkxVmFindGlobalVariable(vm, via ? nullptr : h.cs, nm);
            if(!g) continue;
            NKValue v = *g; int vt; memcpy(&vt, &v.type, sizeof vt);
            if(vt != NK_VALUETYPE_OBJECTID) continue;
            if(nkxVmHasErrors(vm)) break;
            sink += nkxVmObjectGetSize(vm, &v);
            if(nkxVmHasErrors(vm)) break; // a damaged save may carry any object id here
            sink += nkxVmObjectGetExternalType(vm, &v).id + nkxVmObjectGetExternalHandleCount(vm, &v); use(nkxVmObjectGetExternalData(vm, &v));
            for(int k = 0; k < 5; k++) { // absent and present fields, nothing added
                NKValue key; memset(&key, 0, sizeof key);
                if(k < 2) nkxValueSetInt(vm, &key, k); else if(k == 2) nkxValueSetFloat(vm, &key, 0.5f); else if(k == 3) key = v; else nkxValueSetNil(vm, &key);
                NKValue *fld = nkxVmObjectFindOrAddEntry(vm, &v, &key, nktrue);
                if(fld) sink += fld->type_uint;
            }
        }
    }
    if(part(3)) for(auto &x : h.held) { if(nkxVmHasErrors(vm)) break; NKValue v = x.second; if(v.type == NK_VALUETYPE_OBJECTID) sink += nkxVmObjectGetExternalHandleCount(vm, &v) + nkxVmObjectGetSize(vm, &v); }
    if(part(4)) dump(vm, nullptr);
    if(part(5)) dump(vm, script ? script : "var a = 1;\n\n// text\nprint(\"x\\t\");");
}
struct Sig {
    string d, s, e; bool saved = false;
    Sig(Host &h, bool save = true) {
        d = dump(h.vm); e = h.errors();
        if(save) { Stream st; int k = h.subSaved; saved = h.save(st); h.subSaved = k; s = st.buf; d += saved ? "" : "save refused"; if(h.errors() != e) d = dump(h.vm), e = h.errors(); }
    }
};
static void same(Case &c, const Sig &a, const Sig &b, const string &when) {
    if(a.d != b.d) c.fail("%s: the dumped state changed: %s", when.c_str(), firstDiff(a.d, b.d).c_str());
    else if(a.e != b.e) c.fail("%s: the errors changed: '%s', then '%s'", when.c_str(), esc(a.e).c_str(), esc(b.e).c_str());
    else if(a.saved != b.saved || a.s != b.s) c.fail("%s: the save changed", when.c_str());
}
static void done(Case &c, Host &h) { if(h.cs) h.finalize(); if(h.vm) h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str()); c.trace(); }

// -- at every boundary, whole and by parts ------------------------------------------------------------------------------
static vector<std::pair<string, string>> progs;
static vector<corpus::Run> base;
static void boundaries(Case &c, int p, int how) { // how: 0 everything, 1.. one part only, last: within natives too
    const string &src = progs[p].second;
    c.desc("program '%s' looked at at every instruction boundary (%s)", progs[p].first.c_str(), how == 0 ? "everything" : how <= PARTS ? strf("part %d", how - 1).c_str() : "inside native calls as well");
    Host h; corpus::Run r;
    bool ok = corpus::start(h, src);
    r.ok = ok;
    uint64_t n = 0;
    if(ok) {
        if(how == PARTS + 1) { h.lookInNatives = [&](Host &h) { string d = dump(h.vm); look(h); string e = dump(h.vm); if(d != e) h.problems.push_back("inside a native call: " + firstDiff(d, e)); }; }
        while(n < corpus::MAXINST) {
            if(how == 0) { Sig a(h); look(h, -1, src.c_str()); Sig b(h); same(c, a, b, strf("at instruction %llu", (unsigned long long)n)); c.state(hashStr(a.d)); }
            else if(how <= PARTS) look(h, how - 1, src.c_str());
            c.trans();
            if(c.failed() || nkxVmProgramHasEnded(h.vm) || h.hasErrors()) break;
            nkxVmIterate(h.vm, 1); n++;
        }
        if(how == 0) { Sig a(h); look(h, -1, src.c_str()); Sig b(h); same(c, a, b, "at the end"); nkxVmGarbageCollect(h.vm); nkxVmShrink(h.vm); look(h); }
        h.lookInNatives = nullptr;
        if(how) { corpus::finish(h, r); const corpus::Run &b = base[p]; if(r.out != b.out || r.err != b.err || r.globals != b.globals) c.fail("differs from the run nobody looked at: '%s' '%s' '%s', expected '%s' '%s' '%s'", r.out.c_str(), r.err.c_str(), r.globals.c_str(), b.out.c_str(), b.err.c_str(), b.globals.c_str()); if(n != b.n) c.fail("ended after %llu instructions, expected %llu", (unsigned long long)n, (unsigned long long)b.n); }
    }
    if(h.hasErrors()) c.outcome("ended in an error");
    c.nontrivial((uint64_t)p * 16 + how);
    done(c, h);
}
// -- equal states dump equally: a VM and its restored twin --------------------------------------------------------------
static string comparable(const string &d) { // without what is not part of a save: memory use, the order of fields inside a bucket
    string r; size_t i = 0; vector<string> fields;
    auto flush = [&] { std::sort(fields.begin(), fields.end()); for(auto &f : fields) r += f; fields.clear(); };
    while(i < d.size()) {
        size_t e = d.find('\n', i); if(e == string::npos) e = d.size();
        string l = d.substr(i, e - i) + "\n"; i = e + 1;
        if(!l.compare(0, 15, "          key: ")) fields.push_back(l);
        else if(!l.compare(0, 17, "          value: ") && !fields.empty()) fields.back() += l;
        else { flush(); if(l.compare(0, 21, "Current memory usage:")) r += l; }
    }
    flush();
    return r;
}
static void twin(Case &c, int p, uint64_t at) {
    c.desc("program '%s' saved after %llu instructions: dump of the restored VM", progs[p].first.c_str(), (unsigned long long)at);
    Host h; corpus::start(h, progs[p].second);
    for(uint64_t i = 0; i < at; i++) nkxVmIterate(h.vm, 1);
    if(h.hasErrors()) { done(c, h); return; }
    Stream s;
    if(!h.save(s)) c.fail("save failed");
    Host t; t.create(); t.natives();
    if(!t.restore(s)) c.fail("restore failed: %s", t.errors().c_str());
    string a = comparable(dump(h.vm)), b = comparable(dump(t.vm));
    if(a != b) c.fail("%s", firstDiff(a, b).c_str());
    c.state(hashStr(a)); c.nontrivial((uint64_t)p << 32 | at);
    done(c, t); done(c, h);
}
// -- after every step of every history, with every allocation failing ---------------------------------------------------
static void hist(Case &c, const history::History &H, int64_t at, bool persistent, int part) {
    history::World w; Host &h = w.h;
    h.led.failAt = at; h.led.persistent = persistent;
    c.desc("history '%s', request %lld fails%s, looked at after every step (%d)", H.name.c_str(), (long long)at, persistent ? " and every later one" : "", part);
    for(auto &s : H.steps) {
        if(!h.vm && s.first != "create") break;
        s.second(w);
        if(!h.vm) break;
        if(part == 0) {
            bool f = nkxVmHasAllocationFailure(h.vm); nkuint32_t e = nkxGetErrorCount(h.vm), m = nkxVmGetCurrentMemoryUsage(h.vm); int nat = h.nativeCalls; uint64_t failed = h.led.failed;
            look(h);
            if(h.led.failed == failed && (nkxVmHasAllocationFailure(h.vm) != f || nkxGetErrorCount(h.vm) != e || nkxVmGetCurrentMemoryUsage(h.vm) != m || h.nativeCalls != nat)) c.fail("looking after '%s' changed the VM", s.first.c_str());
            if(h.led.failed != failed && !nkxVmHasAllocationFailure(h.vm)) c.fail("an allocation failure while looking is not reported");
        }
        c.trans();
    }
    if(part && h.vm) look(h, part - 1);
    c.nontrivial((uint64_t)at * 32 + part * 2 + persistent + hashStr(H.name));
    done(c, h);
}
// -- what a damaged save left behind ------------------------------------------------------------------------------------
struct Save { string name, bytes; };
static vector<Save> saves;
static void damaged(Case &c, const Save &s, uint64_t i, uint64_t variants) {
    uint64_t pos = i / variants; unsigned v = i % variants; string b = s.bytes;
    static const uint8_t BV[] = {0x00, 0xff, 0x7f, 0x80};
    if(v == 0) b.resize(pos); else if(v <= 4) b[pos] = BV[v - 1]; else b[pos] = (uint8_t)b[pos] + (v == 5 ? 1 : -1);
    if(v && b == s.bytes) return;
    c.desc("save of '%s' damaged at byte %llu of %zu (%s)", s.name.c_str(), (unsigned long long)pos, s.bytes.size(), v == 0 ? "cut" : strf("%02x instead of %02x", (uint8_t)b[pos], (uint8_t)s.bytes[pos]).c_str());
    Host h; h.create(); h.natives(); h.led.cap = 64u << 20; h.noDataOk = true;
    nkxSetRemainingInstructionLimit(h.vm, 2000);
    Stream st; st.buf = b;
    bool ok = h.restore(st);
    string d = dump(h.vm), e = h.errors();
    bool had = h.hasErrors();
    look(h);
    // With errors pending nothing more may be added. A damaged VM may discover damage when its objects are looked into.
    if(had && h.errors() != e) c.fail("looking added errors: %s", h.errors().c_str());
    if(h.errors() == e) { string d2 = dump(h.vm); if(d != d2) c.fail("the dumped state changed: %s", firstDiff(d, d2).c_str()); }
    nkxVmIterate(h.vm, 20); look(h);
    nkxVmGarbageCollect(h.vm); nkxVmShrink(h.vm); look(h);
    c.outcome(ok ? had ? "accepted with errors" : "accepted" : "refused");
    c.trans(3); c.nontrivial(i);
    done(c, h);
}

void define(Registry &r) {
    r.level = "model_checking";
    r.rule = "the real library is looked at through every inspecting call of the interface and the state dump, at every instruction boundary, inside every native call, after every step of every history under every allocation failure, and after loading every damaged save; state dump, save, errors, memory use and final results are compared with those of not looking";
    bool th = r.thorough();
    if(progs.empty()) {
        for(auto &p : corpus::all()) progs.push_back({p.name, p.src});
        static const vector<std::pair<string, string>> X = {
            {"empty", ""}, {"onlyglobals", "var a; var b; function f(x) { return x; }"},
            {"long strings", "var s = \"0123456789012345678901234567890123456789012345678901234567890123456789\\t\\n\\\"\" + \"\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\"; var o = object(); o[s] = s; print(s);"},
            {"escapes", "var a = \"\\n\\t\\r\\\"\"; var b = \"\x7f\x80\xff\xc3\xa4%s%n%d\"; print(a, b);"},
            {"odd floats", "var a = 3.4028235e38; var b = 0.0 - 340282350000000000000000000000000000000.0; var i = 1.0; var n = 0.0 * 3.0; b = b * 10.0; a = b - b; print(i, n); var o = object(); o[i] = a;"},
            {"finished coroutines", "function f(x) { return x; } var co = coroutine(f, 1); print(resume(co)); co = coroutine(f, 2); var a = coroutine(f, 3); a = nil; gc(); print(is_finished(co));"},
            {"held objects", "var a = object(); hold(1, a); hold(1, a); a.b = object(); hold(2, a.b); a = nil; gc(); print(held(1)); unhold(1); unhold(2);"},
        };
        for(auto &x : X) progs.push_back(x);
        for(int l = 0; l < 80; l++) progs.push_back({strf("string of %d", l), "var s = \"" + string(l, 'q') + "\"; var t = \"" + string(l / 2, 'q') + string("\\t") + string(l - l / 2, 'q') + "\"; print(s);"});
        for(auto &p : progs) base.push_back(corpus::baseline(p.second));
    }
    uint64_t NP = progs.size(), total = 0;
    r.add("boundaries", NP * (PARTS + 2), [NP](uint64_t i, Case &c) { boundaries(c, i % NP, i / NP); if(i % 90 == 0) c.sample(progs[i % NP].first); });
    static vector<std::pair<int, uint64_t>> at; at.clear();
    for(size_t p = 0; p < progs.size(); p++) { total += base[p].n + 1; for(uint64_t k = 0; k <= base[p].n; k += th ? 1 : 3) at.push_back({(int)p, k}); }
    r.add("twins", at.size(), [](uint64_t i, Case &c) { twin(c, at[i].first, at[i].second); });
    static vector<history::History> H; H = history::all(th);
    uint64_t reqs = 0; unsigned step = th ? 1 : 5;
    for(size_t k = 0; k < H.size(); k++) {
        uint64_t n; { history::World w; for(auto &s : H[k].steps) { if(!w.h.vm && s.first != "create") break; s.second(w); look(w.h); } n = w.h.led.calls; }
        H[k].n = n; reqs += n;
        r.add("history/" + H[k].name, (n / step + 1) * 2, [k, step](uint64_t i, Case &c) { int64_t a = (int64_t)(i / 2) * step + (i / 2 ? (int64_t)(hashStr(H[k].name) % step) : 0) - 1; hist(c, H[k], a, i & 1, a < 0 ? 0 : (i / 2 % 3 ? 0 : 1 + i / 6 % PARTS)); }).cpuSeconds = 10;
    }
    saves.clear();
    for(const char *nm : {"coronest", "res", "held objects", "objkeys"}) for(size_t p = 0; p < progs.size(); p++) if(progs[p].first == nm) {
        Host h; corpus::start(h, progs[p].second); for(uint64_t i = 0; i < base[p].n * 2 / 3; i++) nkxVmIterate(h.vm, 1);
        Stream s; h.save(s); saves.push_back({nm, s.buf}); if(!th && saves.size() == 2) break;
    }
    uint64_t sz = 0;
    for(size_t k = 0; k < saves.size(); k++) { sz += saves[k].bytes.size(); r.add("damaged/" + saves[k].name, saves[k].bytes.size() * 7, [k](uint64_t i, Case &c) { damaged(c, saves[k], i, 7); }).cpuSeconds = 5; }
    r.bounds = strf("%d programs, all %llu instruction boundaries x (everything, each of %d groups of inspections, inside native calls); restored twins at %zu boundaries; %zu histories x every %s of %llu allocation requests, alone and persistent; %llu bytes of saves, each cut and changed in 6 ways", (int)NP, (unsigned long long)total, PARTS, at.size(), H.size(), th ? "one" : "fifth", (unsigned long long)reqs, (unsigned long long)sz);
    r.assumptions = {"inspecting calls get the VM, ids and object values the VM handed out", "an inspection that itself runs out of memory leaves the VM in the reported allocation-failure state"};
}

#include "history.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;
using namespace history;
using std::string;
using std::vector;

#define VM w.h.vm
// No call is made without a VM: creation may legitimately answer NULL when its very first request fails.
static void create(vector<std::pair<string, Step>> &s) {
    s.push_back({"create", [](World &w) { w.h.create(); }});
}
static void load(vector<std::pair<string, Step>> &s, const string &src, int gci = 7) {
    create(s);
    s.push_back({"compiler", [](World &w) { w.h.compiler(); }});
    s.push_back({"natives", [](World &w) { w.h.natives(); }});
    s.push_back({"gc interval", [gci](World &w) { nkxSetGarbageCollectionInterval(VM, gci); nkxSetGarbageCollectionNewObjectInterval(VM, 4); nkxSetRemainingInstructionLimit(VM, 50000); }});
    s.push_back({"compile", [src](World &w) { if(w.h.cs) w.h.compile(src); }});
    s.push_back({"finalize", [](World &w) { if(w.h.cs) nkxCompilerFinalize(w.h.cs); w.h.cs = nullptr; }});
}
static void tail(vector<std::pair<string, Step>> &s) {
    s.push_back({"inspect", [](World &w) { w.h.globalsRepr({"a", "o", "co"}); }});
    s.push_back({"call a global", [](World &w) {
        for(const char *g : {"f", "g", "mk", "r"}) {
            NKValue *f = nkxVmFindGlobalVariable(VM, nullptr, g);
            if(!f) continue;
            NKValue fv = *f, a[2], r; memset(a, 0, sizeof a); memset(&r, 0, sizeof r);
            nkxValueSetString(VM, &a[0], "arg"); nkxCreateObject(VM, &a[1]);
            nkxVmCallFunction(VM, &fv, 2, a, &r);
            nkxVmCallFunction(VM, &fv, 1, a, &r);
        }
    }});
    s.push_back({"gc", [](World &w) { nkxVmGarbageCollect(VM); }});
    s.push_back({"shrink", [](World &w) { nkxVmShrink(VM); }});
    s.push_back({"save", [](World &w) { nkxVmSerialize(VM, streamRW, &w.s, nktrue); }});
    s.push_back({"add errors", [](World &w) { nkxAddError(VM, "some error"); nkxAddErrorEx(VM, "other", "file.nks", 3); }});
    s.push_back({"read errors", [](World &w) { w.h.errors(); nkxGetErrorCount(VM); }});
    s.push_back({"run again", [](World &w) { nkxVmIterate(VM, 5); nkxVmExecuteProgram(VM); nkxVmProgramHasEnded(VM); }});
}
static void nTyped(NKVMFunctionCallbackData *d) {
    Host *h = (Host *)nkxGetUserData(d->vm);
    h->nativeCalls++;
    if(nkxVmHasAllocationFailure(d->vm)) h->problems.push_back("native entered although the VM reports allocation failure");
    nkxFunctionCallbackCheckArgCount(d, 2, "typed");
    nkxFunctionCallbackCheckArguments(d, "typed", 2, NK_VALUETYPE_INT, NK_VALUETYPE_STRING);
    nkxFunctionCallbackGetExternalDataArgument(d, "typed", 0, h->tRes);
    nkxFunctionCallbackGetExternalDataArgument(d, "typed", 1, h->tRes);
    nkxGetExternalSubsystemDataOrError(d->vm, "no such subsystem");
    nkxValueSetString(d->vm, &d->returnValue, "typed result");
}

// A type whose callbacks use the API themselves.
struct Busy { NKValue kept, seen; bool holds; };
static void busyMark(NKVM *vm, NKValue *, void *data, NKVMGCState *gc) { Busy *b = (Busy *)data; if(!b) return; nkxVmGarbageCollect_markValue(vm, gc, &b->seen); nkxVmGarbageCollect_markValue(vm, gc, &b->kept); }
static void busyCleanup(NKVM *vm, NKValue *, void *data) {
    Busy *b = (Busy *)data; if(!b) return;
    NKValue t; memset(&t, 0, sizeof t);
    nkxCreateObject(vm, &t);
    nkxValueSetString(vm, &t, "said by a cleanup callback");
    NKValue *e = nkxVmObjectFindOrAddEntry(vm, &b->kept, &t, nkfalse); if(e) nkxValueSetInt(vm, e, 1);
    if(b->holds) nkxVmObjectReleaseHandle(vm, &b->kept);
    nkxVmHasErrors(vm);
    delete b;
}
static void busySerialize(NKVM *vm, NKValue *v, void *) {
    if(nkxSerializerGetWriteMode(vm)) return;
    Busy *b = new Busy; memset(b, 0, sizeof *b); if(!nkxVmObjectSetExternalData(vm, v, b)) delete b;
}
static NKVMExternalDataTypeID gBusy;
// busy(keep, see): native data that holds a handle on one object and marks both
static void nBusy(NKVMFunctionCallbackData *d) {
    NKVM *vm = d->vm;
    NKValue o; memset(&o, 0, sizeof o);
    nkxCreateObject(vm, &o);
    if(nkxVmHasAllocationFailure(vm)) return;
    nkxVmObjectSetExternalType(vm, &o, gBusy);
    Busy *b = new Busy; memset(b, 0, sizeof *b);
    if(!nkxVmObjectSetExternalData(vm, &o, b)) { delete b; return; }
    if(d->argumentCount > 0 && d->arguments[0].type == NK_VALUETYPE_OBJECTID) { b->kept = d->arguments[0]; b->holds = true; nkxVmObjectAcquireHandle(vm, &b->kept); }
    if(d->argumentCount > 1) b->seen = d->arguments[1];
    d->returnValue = o;
}
static void busySub(NKVM *vm, void *) { // documented recipe for VMs whose memory ran out
    if(!nkxVmHasAllocationFailure(vm) || gBusy.id == NK_INVALID_VALUE) return;
    nkuint32_t i = 0; NKValue v;
    while(nkxGetNextObjectOfExternalType(vm, gBusy, &v, &i)) { delete (Busy *)nkxVmObjectGetExternalData(vm, &v); }
}
static void busyRegister(World &w) {
    gBusy = nkxVmRegisterExternalType(VM, "Busy", busySerialize, busyCleanup, busyMark);
    nkxInitSubsystem(VM, w.h.cs, "busysub", &w, busySub, nullptr);
    nkxVmSetupExternalFunction(VM, w.h.cs, "busy", nBusy, nktrue, NK_INVALID_VALUE);
}
static void callbacks(vector<History> &v) {
    static const char *P[] = {
        "var a = object(); var o = busy(a, \"t\" + 1); gc(); a = nil; gc(); o = nil; gc(); gc(); var n = object(); var c = busy(object(), n); for(var i = 0; i < 6; ++i) { busy(object(), object()); } c = nil; gc(); print(n);",
        "var n = object(); var c = busy(nil, nil); var w = object(); var d = busy(w, c); var q = busy(n, d); hold(n); var k = object(); for(var i = 0; i < 9; ++i) { k = busy(k, \"s\" + i); }",
    };
    for(int i = 0; i < 2; i++) {
        History h; h.name = strf("callbacks/%d", i); create(h.steps);
        auto add = [&](const char *n, Step s) { h.steps.push_back({n, s}); };
        string src = P[i];
        add("compiler", [](World &w) { w.h.compiler(); });
        add("natives", [](World &w) { w.h.natives(); });
        add("busy", [](World &w) { gBusy.id = NK_INVALID_VALUE; if(w.h.cs) busyRegister(w); });
        add("gc interval", [](World &w) { nkxSetGarbageCollectionInterval(VM, 7); nkxSetGarbageCollectionNewObjectInterval(VM, 3); });
        add("compile", [src](World &w) { if(w.h.cs) w.h.compile(src); });
        add("finalize", [](World &w) { if(w.h.cs) nkxCompilerFinalize(w.h.cs); w.h.cs = nullptr; });
        add("run", [](World &w) { nkxVmExecuteProgram(VM); });
        tail(h.steps); v.push_back(h);
    }
}
// The host declares the VM failed: at the top, in a native, in a native called by a script a native called, while
// collecting and while cleaning up.
vector<History> history::forced() {
    vector<History> v;
    static const char *P[] = {"var a = 1; hook(); a = 2; print(a);", "function f(x) { var t = object(); t.x = x; hook(); return t; } var o = nil; var b = \"s\" + 1; var co = coroutine(f, b); resume(co, 1); print(b);",
        "function f(x) { hook(); return x; } var a = call(f, 3); a = 5; print(a);", "var o = object(); o.v = \"x\" + 2; str(o); print(o.v);"};
    for(int i = 0; i < 4; i++) for(int again = 0; again < 2; again++) {
        History h; h.name = strf("forced/%d%s", i, again ? "/twice" : ""); load(h.steps, P[i]);
        auto force = [again](World &w) { nkxForceCatastrophicFailure(VM); if(again) nkxForceCatastrophicFailure(VM); w.h.led.failed++; };
        if(i < 3) {
            h.steps.push_back({"run", [force](World &w) { w.h.onHook = [force, &w](Host &, NKVMFunctionCallbackData *) { force(w); }; nkxVmExecuteProgram(VM); }});
        } else {
            h.steps.push_back({"run", [](World &w) { nkxVmExecuteProgram(VM); }});
            h.steps.push_back({"force", force});
        }
        tail(h.steps); v.push_back(h);
    }
    return v;
}

vector<History> history::all(bool th) {
    vector<History> v;
    callbacks(v);
    { History h; h.name = "create"; create(h.steps); tail(h.steps); v.push_back(h); }
    for(auto &p : corpus::all()) { History h; h.name = string("run/") + p.name; load(h.steps, p.src); h.steps.push_back({"run", [](World &w) { nkxVmExecuteProgram(VM); }}); tail(h.steps); v.push_back(h); }
    for(const char *pn : {"coronest", "res", "errcoro", "nativecoro", "poly", "handles"}) for(auto &p : corpus::all()) if(!strcmp(p.name, pn)) {
        // sliced, with collection, shrinking and saving interleaved, then restored into a fresh VM
        History h; h.name = string("ops/") + p.name; load(h.steps, p.src, 2);
        for(int i = 0; i < 12; i++) h.steps.push_back({"steps", [i](World &w) { nkxVmIterate(VM, 13); if(i % 3 == 0) nkxVmGarbageCollect(VM); if(i % 3 == 1) nkxVmShrink(VM); if(i % 3 == 2) { w.s = Stream(); nkxVmSerialize(VM, streamRW, &w.s, nktrue); } }});
        tail(h.steps); v.push_back(h);
        corpus::Run b = corpus::baseline(p.src);
        for(uint64_t at : {b.n / 3, b.n * 2 / 3}) {
            std::shared_ptr<string> bytes(new string);
            { Host a; corpus::start(a, p.src); for(uint64_t i = 0; i < at; i++) nkxVmIterate(a.vm, 1); Stream s; a.save(s); *bytes = s.buf; }
            History g; g.name = strf("restore/%s@%llu", p.name, (unsigned long long)at);
            create(g.steps);
            g.steps.push_back({"natives", [](World &w) { w.h.natives(); }});
            g.steps.push_back({"restore", [bytes](World &w) { Stream s; s.buf = *bytes; nkxVmSerialize(VM, streamRW, &s, nkfalse); w.h.noDataOk = true; }});
            g.steps.push_back({"gc interval", [](World &w) { nkxSetGarbageCollectionInterval(VM, 3); nkxSetRemainingInstructionLimit(VM, 50000); }});
            g.steps.push_back({"run", [](World &w) { nkxVmExecuteProgram(VM); }});
            g.steps.push_back({"restore again", [bytes](World &w) { Stream s; s.buf = *bytes; nkxVmSerialize(VM, streamRW, &s, nkfalse); }});
            g.steps.push_back({"run again", [](World &w) { nkxVmExecuteProgram(VM); }});
            tail(g.steps); v.push_back(g);
        }
    }
    { // registration in all its forms
        History h; h.name = "register"; create(h.steps);
        auto add = [&](const char *n, Step s) { h.steps.push_back({n, s}); };
        add("compiler", [](World &w) { w.h.compiler(); });
        add("natives", [](World &w) { w.h.natives(); });
        add("typed", [](World &w) { w.fid = nkxVmSetupExternalFunction(VM, w.h.cs, "typed", nTyped, nktrue, 2u, NK_VALUETYPE_NIL, NK_VALUETYPE_OBJECTID, w.h.tRes); });
        add("typed again", [](World &w) { w.fid = nkxVmSetupExternalFunction(VM, w.h.cs, "typed", nTyped, nkfalse, 2u, NK_VALUETYPE_NIL, NK_VALUETYPE_NIL); });
        add("typed more", [](World &w) { w.fid = nkxVmSetupExternalFunction(VM, w.h.cs, "typed3", nTyped, nktrue, 3u, NK_VALUETYPE_INT, NK_VALUETYPE_STRING, NK_VALUETYPE_OBJECTID, w.h.tOther); });
        add("type", [](World &w) { nkxVmRegisterExternalType(VM, "T1", nullptr, nullptr, nullptr); nkxVmFindExternalType(VM, "T1"); nkxVmFindExternalType(VM, "zz"); nkxVmGetExternalTypeName(VM, w.h.tRes); });
        add("register function", [](World &w) { w.fid = nkxVmRegisterExternalFunction(VM, "late", nTyped); });
        add("internal for external", [](World &w) { if(w.fid.id != NK_INVALID_VALUE) { NKVMInternalFunctionID f = nkxVmGetOrCreateInternalFunctionForExternalFunction(VM, w.fid); nkxValueSetFunction(VM, &w.v[0], f); } });
        add("subsystem", [](World &w) { nkxInitSubsystem(VM, w.h.cs, "second", &w, nullptr, nullptr); nkxGetExternalSubsystemData(VM, "second"); nkxGetExternalSubsystemDataOrError(VM, "second"); });
        add("global", [](World &w) { if(w.h.cs) { NKValue *g = nkxCompilerCreateGlobalVariable(w.h.cs, "extra"); if(g) nkxValueSetInt(VM, g, 9); nkxCompilerCreateCFunctionVariable(w.h.cs, "cfn", nTyped); nkxVmFindGlobalVariable(VM, w.h.cs, "extra"); } });
        add("compile", [](World &w) { if(w.h.cs) w.h.compile("var t = 1; var q = typed(1, \"x\"); print(q, extra); print(cfn(res(), t));"); });
        add("compile second file", [](World &w) { if(w.h.cs) w.h.compile("#file \"inc.nks\"\n#line 40\nvar u = typed(t, 3);", "second.nks"); });
        add("finalize", [](World &w) { if(w.h.cs) nkxCompilerFinalize(w.h.cs); w.h.cs = nullptr; });
        add("run", [](World &w) { nkxVmExecuteProgram(VM); });
        tail(h.steps); v.push_back(h);
    }
    { // scripts read from files
        History h; h.name = "files"; create(h.steps);
        auto add = [&](const char *n, Step s) { h.steps.push_back({n, s}); };
        add("compiler", [](World &w) { w.h.compiler(); });
        add("natives", [](World &w) { w.h.natives(); });
        static const char *T[] = {"var a = \"from a file\" + 1; function f(x) { return x; } print(f(a));", "", "var b = ;"};
        for(int i = 0; i < 4; i++) add("compile file", [i](World &w) {
            if(!w.h.cs) return;
            mc::scratch();
            if(i < 3) { FILE *f = fopen("history.nks", "wb"); if(f) { fputs(T[i], f); fclose(f); } }
            else if(mkdir("history.d", 0700)) {}
            nkxCompilerCompileScriptFile(w.h.cs, i < 3 ? "history.nks" : "history.d");
            if(i < 3) unlink("history.nks"); else rmdir("history.d");
        });
        add("missing file", [](World &w) { if(w.h.cs) nkxCompilerCompileScriptFile(w.h.cs, "no such file.nks"); });
        add("finalize", [](World &w) { if(w.h.cs) nkxCompilerFinalize(w.h.cs); w.h.cs = nullptr; });
        add("run", [](World &w) { nkxVmExecuteProgram(VM); });
        tail(h.steps); v.push_back(h);
    }
    { // object and memory API without any program
        History h; h.name = "api"; create(h.steps);
        auto add = [&](const char *n, Step s) { h.steps.push_back({n, s}); };
        add("natives", [](World &w) { w.h.natives(); });
        for(int i = 0; i < 3; i++) add("object", [i](World &w) { nkxCreateObject(VM, &w.v[i]); });
        add("fields", [](World &w) { for(int i = 0; i < 12; i++) { nkxValueSetString(VM, &w.k, strf("key%d", i).c_str()); NKValue *e = nkxVmObjectFindOrAddEntry(VM, &w.v[0], &w.k, nkfalse); if(e) *e = w.v[i % 3]; nkxValueSetFloat(VM, &w.k, i * 0.5f); e = nkxVmObjectFindOrAddEntry(VM, &w.v[1], &w.k, nkfalse); if(e) nkxValueSetString(VM, e, strf("v%d", i).c_str()); } });
        add("handles", [](World &w) { for(int i = 0; i < 3; i++) nkxVmObjectAcquireHandle(VM, &w.v[i]); nkxVmObjectReleaseHandle(VM, &w.v[2]); nkxVmObjectGetExternalHandleCount(VM, &w.v[0]); });
        add("bad handle", [](World &w) { nkxVmObjectGetExternalHandleCount(VM, &w.k); });
        add("gc", [](World &w) { nkxVmGarbageCollect(VM); });
        add("clear", [](World &w) { for(int i = 0; i < 12; i += 2) { nkxValueSetString(VM, &w.k, strf("key%d", i).c_str()); nkxVmObjectClearEntry(VM, &w.v[0], &w.k); } nkxVmObjectGetSize(VM, &w.v[0]); });
        add("strings", [](World &w) { NKValue s; memset(&s, 0, sizeof s); nkxValueSetString(VM, &s, "text"); nkxValueToString(VM, &s); nkxValueToInt(VM, &s); NKValue f; memset(&f, 0, sizeof f); nkxValueSetFloat(VM, &f, 1.25f); nkxValueToString(VM, &f); nkxValueToFloat(VM, &f); });
        add("malloc", [](World &w) { w.mem = nkxMalloc(VM, 100); w.mem2 = nkxMallocArray(VM, 8, 40); });
        add("realloc", [](World &w) { void *p = nkxRealloc(VM, w.mem, 300); if(p) w.mem = p; p = nkxReallocArray(VM, w.mem2, 8, 80); if(p) w.mem2 = p; });
        add("strdup", [](World &w) { char *s = nkxStrdup(VM, "duplicate me"); if(s) nkxFree(VM, s); });
        add("free", [](World &w) { if(!nkxVmHasAllocationFailure(VM)) { nkxFree(VM, w.mem); nkxFree(VM, w.mem2); w.mem = w.mem2 = nullptr; } });
        add("native data", [](World &w) { NKValue ob; memset(&ob, 0, sizeof ob); nkxCreateObject(VM, &ob); nkxVmObjectSetExternalType(VM, &ob, w.h.tOther); nkxVmObjectSetExternalData(VM, &ob, &w); nkxVmObjectGetExternalType(VM, &ob); nkxVmObjectGetExternalData(VM, &ob); });
        add("forced", [](World &w) { if(!w.h.led.failed) nkxAddError(VM, "one"); });
        tail(h.steps); v.push_back(h);
    }
    static const char *BAD[] = {"var a = ;", "function f( { }", "if(1) { print(1);", "print(\"unterminated", "var a = b;", "1 + (2 * [3;", "while(1) { break; } break; return 3;", "function f(a, a) { return a; } var f = function(x) { return x +; };",
        "#line x\n#bogus\nvar q = 1", "var a = { 1 };", "for(;;) {}", "var x = \"a\" \"b\" 1.5.2 @ $;", "a.b.c->d(e, f[g]);"};
    for(auto b : BAD) { History h; h.name = strf("bad/%zu", v.size()); load(h.steps, b); tail(h.steps); v.push_back(h); }
    { // line by line with errors
        History h; h.name = "repl"; create(h.steps);
        h.steps.push_back({"compiler", [](World &w) { w.h.compiler(); }});
        h.steps.push_back({"natives", [](World &w) { w.h.natives(); }});
        static const char *L[] = {"var a = \"s\" + 1;", "var b = ;", "function f(x) { return x + a; }", "print(f(2));", "print(nil + 1);", "a = object(); a.v = 1;", "print(a);"};
        for(auto l : L) h.steps.push_back({"line", [l](World &w) {
            if(!w.h.cs) return;
            nkuint32_t at = nkxCompilerGetInstructionWriteIndex(w.h.cs);
            bool ok = nkxCompilerCompileScript(w.h.cs, l, "line");
            nkxCompilerPartiallyFinalize(w.h.cs);
            if(ok) nkxVmExecuteProgram(VM);
            if(nkxVmHasErrors(VM)) nkxCompilerClearReplErrorState(w.h.cs, at);
            nkxCompilerIsAtRootContext(w.h.cs);
        }});
        h.steps.push_back({"finalize", [](World &w) { if(w.h.cs) nkxCompilerFinalize(w.h.cs); w.h.cs = nullptr; }});
        tail(h.steps); v.push_back(h);
    }
    { // deletion with the compiler still alive
        History h; h.name = "unfinished"; create(h.steps);
        h.steps.push_back({"compiler", [](World &w) { w.h.compiler(); }});
        h.steps.push_back({"natives", [](World &w) { w.h.natives(); }});
        h.steps.push_back({"compile", [](World &w) { if(w.h.cs) w.h.compile("function f(x) { var o = object(); o.f = function(y) { return y; }; return o; } { var z = 1;"); }});
        h.steps.push_back({"finalize", [](World &w) { if(w.h.cs) nkxCompilerFinalize(w.h.cs); w.h.cs = nullptr; }});
        v.push_back(h);
    }
    uint64_t A = corpus::heapActions();
    if(th) for(uint64_t i = 0; i < A * A + A; i++) { History h; h.name = strf("heap/%llu", (unsigned long long)i); load(h.steps, corpus::heapProgram(seqDecode(i, A), i & 1), 3); h.steps.push_back({"run", [](World &w) { nkxVmExecuteProgram(VM); }}); tail(h.steps); v.push_back(h); }
    return v;
}

// uses: lang.cpp corpus.cpp
// C21: calls made by the host are well nested and leave the VM as found: at every instruction boundary of every program, with
// every callee; nested through natives in every combination up to a bound; and every failing call.
#include "corpus.h"
#include "diff.h"
#include <memory>
using namespace mc;
using std::string;
using std::vector;

// Defined in front of every program (on its first line). What each callee gives is known independently of the program.
static const string PRE =
    "var h_g = 0; function h_id(x) { var l = x; { var m = l; l = m; } return l; } function h_rec(n) { if(n < 1) { return \"e\"; } var t = h_rec(n - 1); return t + n; } "
    "function h_mk(v) { var o = object(); o.v = v; o.x = \"hm\" + 1; return o; } function h_gen(n) { var k = yield(n + 1); print(\"k\", k); yield(k); return \"end\"; } "
    "function h_co(n) { var c = coroutine(h_gen, n); var s = \"\" + resume(c); s = s + resume(c, \"in\"); s = s + resume(c); if(is_finished(c)) { s = s + \"!\"; } return s; } "
    "function h_glob(v) { h_g = h_g + v; return h_g; } function h_none() { } function h_two(a, b) { return a - b; } function h_nat(x) { return call(h_co, call(h_id, x)); } "
    "function h_gc(x) { var o = h_mk(x); gc(); var p = h_mk(o); gc(); return p; } function h_call(f) { return f(3); } var h_ob = object(); h_ob._exec = h_two; h_ob._data = 10; function h_ex(x) { return h_ob(x) + h_ob._exec(x, 1); } "
    "function h_loop(n) { var s = 0; var i; for(i = 0; i < n; ++i) { if(i == 3) { break; } s = s + i; } while(s < 10) { s = s + 4; } return s; } var h_cs = coroutine(function() { var i = 0; while(1) { i = i + 1; yield(i); } }); function h_res() { return resume(h_cs); } ";
static const string MARK = "var h_ready = 1; ";
struct Callee { const char *name; vector<string> args; const char *ret, *out; bool stateful; };
static const vector<Callee> CALLEES = {
    {"h_id", {"i5"}, "i5", "", false}, {"h_id", {"'str'"}, "'str'", "", false}, {"h_id", {"nil"}, "nil", "", false}, {"h_id", {"f0.5"}, "f0.5", "", false}, {"h_rec", {"i4"}, "'e1234'", "", false},
    {"h_mk", {"i7"}, "{#2 v=i7 x='hm1'}", "", false}, {"h_co", {"i1"}, "'2inend!'", "'k','in';'k',nil;", false}, {"h_glob", {"i3"}, "i3", "", true}, {"h_none", {}, "i0", "", false},
    {"h_two", {"i9", "i4"}, "i5", "", false}, {"h_nat", {"i6"}, "'7inend!'", "'k','in';", false}, {"h_gc", {"'g'"}, "{#2 v={#2 v='g' x='hm1'} x='hm1'}", "", false}, {"print", {"i1", "'two'"}, "i0", "i1,'two';", false},
    {"str", {"i12"}, "'12'", "", false}, {"h_call", {"fn:h_rec"}, "'e123'", "", false}, {"h_ex", {"i4"}, "i9", "", false}, {"h_loop", {"i9"}, "i11", "", false}, {"h_res", {}, "i1", "", true}, {"gc", {}, "i0", "", false},
};
static bool arg(Host &h, const string &a, NKValue &v) {
    memset(&v, 0, sizeof v);
    if(a == "nil") nkxValueSetNil(h.vm, &v);
    else if(a[0] == 'i') nkxValueSetInt(h.vm, &v, atoi(a.c_str() + 1));
    else if(a.compare(0, 3, "fn:") == 0) { NKValue *g = nkxVmFindGlobalVariable(h.vm, h.cs, a.c_str() + 3); if(!g) return false; v = *g; }
    else if(a[0] == 'f') nkxValueSetFloat(h.vm, &v, atof(a.c_str() + 1));
    else nkxValueSetString(h.vm, &v, a.substr(1, a.size() - 2).c_str());
    return true;
}
static bool callable(Host &h, const char *name, NKValue &f) {
    NKValue *g = nkxVmFindGlobalVariable(h.vm, h.cs, name);
    if(!g || g->type != NK_VALUETYPE_FUNCTIONID) return false;
    f = *g;
    return true;
}
// Calls and removes what the callee printed from the output again.
static bool callAndCheck(Case &c, Host &h, const Callee &k, int times, bool wantValue = true) {
    NKValue f;
    if(!callable(h, k.name, f)) { c.fail("function %s not found", k.name); return false; }
    vector<NKValue> a(k.args.size());
    for(size_t i = 0; i < a.size(); i++) arg(h, k.args[i], a[i]);
    NKValue r; memset(&r, 0, sizeof r); r.type = NK_VALUETYPE_STRING; r.stringTableEntry = 0;
    string before = h.out;
    nkxVmCallFunction(h.vm, &f, a.size(), a.empty() ? nullptr : &a[0], wantValue ? &r : nullptr);
    c.trans();
    string got = h.hasErrors() ? "error " + h.errors() : wantValue ? h.repr(&r, 2) : "", o = h.out.substr(before.size());
    string want = !wantValue ? "" : k.stateful ? strf("i%d", string(k.name) == "h_glob" ? 3 * times : times) : k.ret;
    string wo = k.out;
    if(string(k.name) == "h_co" || string(k.name) == "h_nat") wo = "'k','in';";
    if(got != want || o != wo) { c.fail("%s gave %s and printed '%s', expected %s and '%s'", k.name, got.c_str(), o.c_str(), want.c_str(), wo.c_str()); return false; }
    h.out = before;
    return true;
}
struct Base { string src; corpus::Run run; uint64_t first = 0; }; // first: boundary from which the callees are defined
static bool ready(Host &h) { NKValue *g = nkxVmFindGlobalVariable(h.vm, nullptr, "h_ready"); return g && g->type == NK_VALUETYPE_INT && g->intData == 1; }
static Base base(const string &p) {
    Base b; b.src = PRE + MARK + p;
    b.run = corpus::baseline(b.src);
    Host h; corpus::start(h, b.src);
    for(b.first = 0; b.first < 3000 && !ready(h); b.first++) nkxVmIterate(h.vm, 1);
    return b;
}
static void conclude(Case &c, Host &h, const Base &b) {
    corpus::Run r;
    nkxVmExecuteProgram(h.vm);
    corpus::finish(h, r);
    if(r.key() != b.run.key()) c.fail("the interrupted program ended differently\n  with calls: %s\n  without:    %s", r.key().c_str(), b.run.key().c_str());
    c.state(hashStr(r.key()));
    h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str());
    c.trace();
}
static void one(Case &c, const Base &b, const Callee &k, uint64_t at, const char *name) {
    c.desc("%s: %s called after %llu instructions", name, k.name, (unsigned long long)at);
    Host h; corpus::start(h, b.src);
    for(uint64_t i = 0; i < at; i++) nkxVmIterate(h.vm, 1);
    bool wasEnded = nkxVmProgramHasEnded(h.vm);
    for(int n = 1; n <= 2; n++) if(!callAndCheck(c, h, k, n)) break;
    if(nkxVmProgramHasEnded(h.vm) != wasEnded) c.fail("the call %s the program", wasEnded ? "restarted" : "ended");
    conclude(c, h, b);
    c.nontrivial(hashStr(b.src) + at * 64 + (&k - &CALLEES[0]));
}
static void everywhere(Case &c, const Base &b, const Callee &k, const char *name, int mode) { // mode 1: collection at once, 2: value ignored, 3: save at every boundary too
    c.desc("%s: %s called after every instruction%s", name, k.name, mode == 1 ? ", collecting all the time" : mode == 2 ? ", value not wanted" : mode == 3 ? ", shrinking in between" : "");
    Host h; corpus::start(h, b.src);
    if(mode == 1) { nkxSetGarbageCollectionInterval(h.vm, 1); nkxSetGarbageCollectionNewObjectInterval(h.vm, 1); }
    int n = 0;
    for(uint64_t i = 0; i <= b.run.n + 3; i++) {
        if(i >= b.first && !h.hasErrors()) { if(mode == 3) nkxVmShrink(h.vm); if(!callAndCheck(c, h, k, ++n, mode != 2)) break; }
        nkxVmIterate(h.vm, 1);
    }
    conclude(c, h, b);
    c.nontrivial(hashStr(b.src) * 8 + (&k - &CALLEES[0]) * 3 + mode);
}
// Several calls of different callees in a row at one boundary, all pairs.
static void pairs(Case &c, const Base &b, int k1, int k2, uint64_t at, const char *name) {
    if(CALLEES[k1].stateful && k1 != k2 && CALLEES[k2].stateful && string(CALLEES[k1].name) == CALLEES[k2].name) return;
    c.desc("%s: %s then %s called after %llu instructions and after the next one", name, CALLEES[k1].name, CALLEES[k2].name, (unsigned long long)at);
    Host h; corpus::start(h, b.src);
    nkxVmIterate(h.vm, at);
    bool same = k1 == k2;
    if(callAndCheck(c, h, CALLEES[k1], 1) && callAndCheck(c, h, CALLEES[k2], same ? 2 : 1)) {
        nkxVmIterate(h.vm, 1);
        if(!h.hasErrors()) { callAndCheck(c, h, CALLEES[k2], same ? 3 : 2); if(!c.failed()) callAndCheck(c, h, CALLEES[k1], same ? 4 : 2); }
    }
    conclude(c, h, b);
    c.nontrivial(hashStr(b.src) + at * 1024 + k1 * 32 + k2);
}

// -- nested calls: every combination of actions in two functions and a coroutine, against the reference interpreter ----
static const vector<string> ACT = {
    "print(\"x\", n);", "print(call(f, n - 1));", "print(call(g, n - 1));", "print(f(n - 1));", "print(resume(co, n));", "print(yield(n));", "print(call(call, g, n - 1));", "call(f);", "call(n);", "co = coroutine(g, n - 1);",
    "print(resume(coroutine(g, n - 1)));", "gc();", "print(call(function(a, b) { var l = a; return l + b; }, n, 2));", "if(n == 1) { error(\"deep\"); }", "n = call(h, n);", "print(call(print, n), call(str, n));", "co = coroutine(call, f, n - 1);", "{ var l = object(); l.v = call(g, n - 1); print(l.v); }",
    "for(var i = 0; i < 2; ++i) { print(call(g, 0), i); }", "o.m = g; print(o.m(call(h, n) - 1));",
};
static string nested(int a, int b, int g, int d, int n) {
    return "var co; var o = object(); function h(x) { return x; } var g;\nfunction f(n) { if(n < 1) { return \"z\"; } " + ACT[a] + " " + ACT[b] + " return \"f\" + n; }\ng = function(n) { if(n < 1) { return \"y\"; } " + ACT[g] + " return n; };\nco = coroutine(f, 2); var n = " + std::to_string(n) + "; " + ACT[d] + "\nprint(call(f, n)); print(f(n)); print(\"end\");";
}
// -- failing calls ------------------------------------------------------------------------------------------------
// REPL: definitions, then a failing host call at every situation, then everything must still work.
static const struct { const char *name; const char *def; vector<string> args; bool fails; } BAD[] = {
    {"too few arguments", "function b(x, y) { return x; }", {"i1"}, true}, {"too many arguments", "function b(x) { return x; }", {"i1", "i2"}, true}, {"no arguments", "function b(x) { return x; }", {}, true}, {"an argument for none", "function b() { return 1; }", {"i1"}, true},
    {"calling nil", "var b = nil;", {"i1"}, true}, {"calling an integer", "var b = 5;", {"i1"}, true}, {"calling a string", "var b = \"b\";", {"i1"}, true}, {"calling a float", "var b = 0.5;", {"i1"}, true}, {"calling an object", "var b = object(); b.x = 1;", {"i1"}, true}, {"calling a coroutine", "var b = coroutine(print, 1);", {}, true}, {"calling native data", "var b = res();", {}, true},
    {"error in the callee", "function b(x) { var l = object(); l.v = x; return x / 0; }", {"i1"}, true}, {"error in a nested function", "function b1(x) { var l = 1; return nil + x; } function b(x) { var m = b1(x); return m; }", {"i1"}, true}, {"native error in the callee", "function b(x) { print(x); error(\"bad\"); print(2); return 1; }", {"i1"}, true},
    {"error in a nested host call", "function b1(x) { return x.y; } function b(x) { var l = \"l\"; return call(b1, x); }", {"i1"}, true}, {"native called directly", "var b = error;", {"'direct'"}, true}, {"yield out of the call", "function b(x) { var l = x; return yield(l); }", {"i1"}, true}, {"yield out of a nested call", "function b1(x) { return yield(x); } function b(x) { return b1(x) + call(b1, x); }", {"i1"}, true},
    {"error in a coroutine", "function b1(x) { var l = 1; return x / 0; } function b(x) { var m = 2; return resume(coroutine(b1, x)); }", {"i1"}, true}, {"error in a nested coroutine", "function b2(x) { yield(x); return x.q; } function b1(x) { var c = coroutine(b2, x); resume(c); return resume(c); } function b(x) { var c = coroutine(b1, x); return resume(c); }", {"i1"}, true},
    {"endless recursion", "function b(x) { return b(x + 1); }", {"i1"}, true}, {"endless host recursion", "function b(x) { return call(call, b, x); }", {"i1"}, false}, {"wrong count inside", "function b1(x) { return x; } function b(x) { return b1(x, x); }", {"i1"}, true}, {"resume of a finished coroutine", "function b(x) { var c = coroutine(print, x); resume(c); return resume(c); }", {"i1"}, false},
    {"yield inside a coroutine inside", "function b1(x) { yield(x); return 5; } function b(x) { var c = coroutine(b1, x); resume(c); return resume(c); }", {"i1"}, false}, {"yield from a host call in a coroutine", "function b1(x) { return yield(x); } function b2(x) { return call(b1, x); } function b(x) { return resume(coroutine(b2, x)); }", {"i1"}, true}, {"resume of itself", "var bc; function b1() { return resume(bc); } function b(x) { bc = coroutine(b1); return resume(bc); }", {"i1"}, true},
};
static const int NBAD = sizeof BAD / sizeof *BAD;
// what is in progress when the host calls
static const vector<string> SITUATION = {"", "var s = 1;", "{ var l1 = 1; var l2 = \"two\"; hook(1); print(l1, l2); }", "function s(x) { var l = x; hook(1); print(l, x); return l; } print(s(4));", "function s(x) { var l = x; hook(1); print(l, x); return l; } print(resume(coroutine(s, 5)));", "function s(x) { var l = x; hook(1); return l; } print(call(s, 6));"};
static void failing(Case &c, int bad, int sit, int rounds) {
    auto &B = BAD[bad];
    c.desc("%s, %d times%s%s", B.name, rounds, sit ? ", from " : "", sit ? SITUATION[sit].c_str() : "");
    Host h; h.create(); h.compiler(); h.natives();
    auto chunk = [&](const string &src) { // one step of an interactive session
        nkuint32_t at = nkxCompilerGetInstructionWriteIndex(h.cs);
        bool ok = nkxCompilerCompileScript(h.cs, src.c_str(), "t.nks");
        if(ok) { nkxCompilerPartiallyFinalize(h.cs); while(!nkxVmProgramHasEnded(h.vm) && !h.hasErrors()) nkxVmIterate(h.vm, 100); }
        string e = h.errors();
        if(h.hasErrors()) nkxCompilerClearReplErrorState(h.cs, at);
        return e;
    };
    string e = chunk(string("var keep = object(); keep.v = \"kept\"; var cnt = 0; function good(x) { var l = x; cnt = cnt + 1; return l + 1; } function cogood(n) { yield(n); return n + 1; }\n") + B.def);
    if(!e.empty()) { c.fail("harness error: %s", e.c_str()); return; }
    nkxSetMaxStackSize(h.vm, 400);
    int hooks = 0; bool entered = false;
    auto call = [&](bool inside) {
        NKValue *g = nkxVmFindGlobalVariable(h.vm, h.cs, "b");
        if(!g) { c.fail("global b not found"); return; }
        NKValue f = *g, r; memset(&r, 0, sizeof r); nkxValueSetInt(h.vm, &r, 12345);
        vector<NKValue> a(B.args.size());
        for(size_t i = 0; i < a.size(); i++) arg(h, B.args[i], a[i]);
        int natives = h.nativeCalls; (void)natives;
        nkxVmCallFunction(h.vm, &f, a.size(), a.empty() ? nullptr : &a[0], &r);
        entered = true;
        if(h.hasErrors() != B.fails) c.fail("%s: %s", B.fails ? "no error was reported" : "an error was reported", h.errors().c_str());
        if(B.fails && !h.errors().size()) c.fail("an error without text");
        if(nkxVmHasAllocationFailure(h.vm)) c.fail("reported as an allocation failure");
    };
    h.onHook = [&](Host &, NKVMFunctionCallbackData *) { hooks++; call(true); };
    for(int k = 0; k < rounds && !c.failed(); k++) {
        nkuint32_t at = nkxCompilerGetInstructionWriteIndex(h.cs);
        if(sit < 2) { if(sit) chunk(SITUATION[1] == "var s = 1;" ? strf("var s%d = 1;", k) : ""); at = nkxCompilerGetInstructionWriteIndex(h.cs); call(false); if(h.hasErrors()) nkxCompilerClearReplErrorState(h.cs, at); }
        else {
            string src = SITUATION[sit]; size_t p; string nm = strf("s%d(", k);
            while((p = src.find(" s(")) != string::npos) src.replace(p, 3, " " + nm);
            while((p = src.find("(s(")) != string::npos) src.replace(p, 3, "(" + nm);
            while((p = src.find("(s,")) != string::npos) src.replace(p, 3, strf("(s%d,", k));
            string out0 = h.out, er = chunk(src);
            if(B.fails != !er.empty()) c.fail("chunk %s: %s", src.c_str(), er.c_str());
        }
        if(h.hasErrors()) c.fail("errors remain after the error state was cleared");
        // everything still works
        NKValue f, a, r; memset(&a, 0, sizeof a); memset(&r, 0, sizeof r);
        nkxValueSetInt(h.vm, &a, 41);
        if(!callable(h, "good", f)) { c.fail("good is gone"); break; }
        nkxVmCallFunction(h.vm, &f, 1, &a, &r);
        if(h.hasErrors() || h.repr(&r) != "i42") { c.fail("a later call gave %s %s", h.repr(&r).c_str(), h.errors().c_str()); break; }
        h.out.clear();
        e = chunk(strf("var z%d = good(%d); { var w = z%d; print(w, keep.v, cnt); } var cc%d = coroutine(cogood, 7); print(resume(cc%d), resume(cc%d), is_finished(cc%d)); print(call(good, 9));", k, k, k, k, k, k, k));
        string want = strf("i%d,'kept',i%d;i7,i8,i1;i10;", k + 1, 3 * k + 2);
        if(!e.empty() || h.out != want) c.fail("a later chunk printed %s, expected %s; errors %s", h.out.c_str(), want.c_str(), e.c_str());
    }
    if(sit >= 2 && !hooks && !c.failed()) c.fail("harness error: never called");
    nkxCompilerFinalize(h.cs); h.cs = nullptr;
    h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str());
    c.trace(rounds); c.trans(rounds); c.nontrivial((bad * 10 + sit) * 10 + rounds); c.state(hashStr(h.out) + bad); c.outcome(B.fails ? "failed" : "succeeded");
}
// A failing call leaves the error as the only effect: the interrupted program stops where it is.
static void failingAt(Case &c, const Base &b, int bad, uint64_t at, const char *name) {
    auto &B = BAD[bad];
    if(!B.fails) return;
    c.desc("%s: %s after %llu instructions", name, B.name, (unsigned long long)at);
    Host h; corpus::start(h, string(B.def) + " " + b.src);
    uint64_t i = 0;
    for(; i < 5000 && !ready(h); i++) nkxVmIterate(h.vm, 1);
    for(; at > b.first && i < 20000; at--, i++) nkxVmIterate(h.vm, 1);
    if(h.hasErrors()) return;
    nkxSetMaxStackSize(h.vm, 600);
    NKValue *g = nkxVmFindGlobalVariable(h.vm, nullptr, "b");
    if(!g) return;
    // a program may use the name b itself: it was defined first, so a global of that name cannot be declared again
    NKValue f = *g, r; memset(&r, 0, sizeof r);
    vector<NKValue> a(B.args.size());
    for(size_t k = 0; k < a.size(); k++) arg(h, B.args[k], a[k]);
    nkxVmCallFunction(h.vm, &f, a.size(), a.empty() ? nullptr : &a[0], &r);
    if(!h.hasErrors()) { c.fail("no error was reported"); return; }
    string e = h.errors(), out = h.out;
    if(nkxVmExecuteProgram(h.vm)) c.fail("the program went on after the error");
    nkxVmIterate(h.vm, 100);
    if(h.out != out) c.fail("something ran after the error: %s", h.out.substr(out.size()).c_str());
    if(h.errors() != e) c.fail("the errors changed: %s", h.errors().c_str());
    h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str());
    c.trace(); c.nontrivial(hashStr(b.src) + at * 64 + bad);
}
// -- argument lists ------------------------------------------------------------------------------------------------
static void lists(Case &c, int n, int kind, int ret) { // n arguments to a native or a script function
    c.desc("%d arguments to %s, value %s", n, kind == 0 ? "a native" : kind == 1 ? "a script function" : "a native through a native", ret ? "wanted" : "not wanted");
    string ps, sum = "0"; for(int i = 0; i < n; i++) { ps += strf("%sp%d", i ? ", " : "", i); }
    Host h;
    if(!h.load("var keep = \"k\"; function f(" + ps + ") { print(" + ps + "); return " + (n ? "p" + std::to_string(n - 1) : "7") + "; } print(keep);")) { c.fail("%s", h.errors().c_str()); return; }
    h.run();
    h.out.clear();
    vector<NKValue> a(n + 1); string want;
    const char *V[] = {"i7", "nil", "f0.5", "'s'", "fn:f"};
    if(kind == 2) callable(h, "print", a[0]);
    for(int i = 0; i < n; i++) { string v = i % 6 == 5 ? strf("i%d", i) : V[i % 6]; arg(h, v, a[i + (kind == 2)]); want += (i ? "," : "") + (v[0] == 'f' && v[1] == 'n' ? "fn" : v); }
    NKValue f, r; memset(&r, 0, sizeof r); r.type = NK_VALUETYPE_NIL;
    callable(h, kind == 0 ? "print" : kind == 1 ? "f" : "call", f);
    nkxVmCallFunction(h.vm, &f, n + (kind == 2), n + (kind == 2) ? &a[0] : nullptr, ret ? &r : nullptr);
    if(h.hasErrors() || h.out != want + ";") c.fail("printed %s expected %s; errors %s", h.out.c_str(), want.c_str(), h.errors().c_str());
    string wr = !ret ? "nil" : kind != 1 ? "i0" : n == 0 ? "i7" : [&] { int i = n - 1; string v = i % 6 == 5 ? strf("i%d", i) : V[i % 6]; return v[0] == 'f' && v[1] == 'n' ? string("fn") : v; }();
    if(h.repr(&r) != wr) c.fail("value %s, expected %s", h.repr(&r).c_str(), wr.c_str());
    h.destroy(); for(auto &p : h.problems) c.fail("%s", p.c_str());
    c.trace(); c.trans(); c.nontrivial(n * 6 + kind * 2 + ret); c.state(hashStr(want));
}

void define(Registry &r) {
    bool th = r.thorough();
    r.level = "model_checking";
    r.rule = "at every instruction boundary of every program, every callee gives exactly its own value and output (also twice, in pairs, at all boundaries of one run, under permanent collection) and the interrupted program ends exactly as without calls; all combinations of nested calls, coroutines, yields and errors through natives against the reference interpreter; every failing call is reported, nothing runs afterwards, and an interactive session continues unharmed";
    static vector<std::unique_ptr<Base>> B; static vector<const char *> N; B.clear(); N.clear();
    for(auto &p : corpus::all()) if(!(p.flags & corpus::NATREF)) {
        std::unique_ptr<Base> b(new Base(base(p.src)));
        if(!b->run.ok) continue;
        B.push_back(std::move(b)); N.push_back(p.name);
    }
    uint64_t K = CALLEES.size(), total = 0;
    for(size_t p = 0; p < B.size(); p++) {
        uint64_t span = B[p]->run.n - std::min(B[p]->run.n, B[p]->first) + (B[p]->run.err.empty() ? 2 : 0);
        total += span;
        int stride = th ? 1 : 3; // quick: at each boundary every third callee, rotating
        r.add(string("boundary/") + N[p], span * ((K + stride - 1) / stride), [=](uint64_t i, Case &c) { Idx d(i); uint64_t k = d.pick((K + stride - 1) / stride) * stride, at = B[p]->first + d.v; k = (k + at % stride) ; if(k >= K) k = at % K; one(c, *B[p], CALLEES[k], at, N[p]); if(i % 3001 == 0) c.sample(strf("%s: %s at %llu", N[p], CALLEES[k].name, (unsigned long long)at)); });
        r.add(string("everywhere/") + N[p], K * 4, [=](uint64_t i, Case &c) { everywhere(c, *B[p], CALLEES[i % K], N[p], i / K); });
        int ps = th ? 1 : 40;
        r.add(string("pairs/") + N[p], (span / ps + 1) * K * K, [=](uint64_t i, Case &c) { Idx d(i); int a = d.pick(K), b = d.pick(K); uint64_t at = B[p]->first + d.v * ps + (th ? 0 : (a * 7 + b) % ps); if(at > B[p]->run.n) return; if(!B[p]->run.err.empty() && at >= B[p]->run.n) return; if(!th && (a + b + d.v) % 4) return; pairs(c, *B[p], a, b, at, N[p]); });
        int fs = th ? 1 : 8;
        bool usesB = string(B[p]->src).find("var b") != string::npos || string(B[p]->src).find("function b") != string::npos;
        if(!usesB) r.add(string("failing-at/") + N[p], (span / fs + 1) * NBAD, [=](uint64_t i, Case &c) { Idx d(i); int k = d.pick(NBAD); uint64_t at = B[p]->first + d.v * fs + (th ? 0 : k % fs); if(at > B[p]->run.n || (!B[p]->run.err.empty() && at >= B[p]->run.n)) return; failingAt(c, *B[p], k, at, N[p]); });
    }
    uint64_t A = ACT.size();
    r.add("nested", ipow(A, 4) * (th ? 3 : 1), [=](uint64_t i, Case &c) { Idx d(i); int a = d.pick(A), b = d.pick(A), g = d.pick(A), m = d.pick(A); if(!th && (a + b + g + m) % 2) return; string s = nested(a, b, g, m, th ? 1 + d.v : 2); lang::Result r; if(diff::compare(c, s, diff::Opt(), &r) == diff::COMPARED) { c.trace(); c.trans(r.steps); c.state(hashStr(r.out)); c.nontrivial(i); c.outcome(r.error ? "error" : "ended"); } if(i % 20011 == 0) c.sample(s); });
    r.add("failing", NBAD * SITUATION.size() * 4, [](uint64_t i, Case &c) { Idx d(i); int b = d.pick(NBAD), s = d.pick(SITUATION.size()); failing(c, b, s, 1 + d.v); });
    r.add("lists", 81 * 3 * 2, [](uint64_t i, Case &c) { Idx d(i); int n = d.pick(81), k = d.pick(3); lists(c, n, k, d.v); });
    r.bounds = strf("%zu programs with %llu boundaries x %zu callees (quick: each boundary with a third of them, rotating); all pairs of callees at every %s boundary; %llu combinations of four actions out of %llu; %d failing calls in %zu situations, 1 to 4 times; 0 to 80 arguments", B.size(), (unsigned long long)total, CALLEES.size(), th ? "" : "40th", (unsigned long long)ipow(A, 4) / (th ? 1 : 2), (unsigned long long)A, NBAD, SITUATION.size());
    r.assumptions = {"a host may clear the error state of an interactive session after a failed call; otherwise a VM with errors stays stopped"};
}

// uses: lang.cpp corpus.cpp
// C12: every instruction, stack and field limit that could just bite or just not bite, for every program, set before
// the run and in the middle of it.
#include "corpus.h"
using namespace mc;
using std::string;
using std::vector;

// -- instruction limit ----------------------------------------------------------------------------------------------
struct Prog { string src; uint64_t n = 0; string out, globals; bool endless = false; vector<string> prefix; };
static vector<Prog> gProgs;
static const char *ENDLESS[] = {
    "while(1) { }", "for(1; 1; 1) { }", "do { } while(1);", "var i; for(i = 0; i < 5; i = i) { print(1); }", "function f(x) { return f(x + 1); } f(0);", "var b; function a(x) { return b(x); } b = function(x) { return a(x); }; a(1);",
    "function g() { while(1) { yield(1); } } var c = coroutine(g); while(1) { resume(c); }", "function g() { while(1) { } } var c = coroutine(g); resume(c); print(9);", "var o = object(); while(1) { o[1] = o; o = object(); }",
    "var s = \"\"; while(1) { s = \"a\" + 1; }", "function f() { while(1) { } } call(f);", "function f2() { while(1) { } } function f() { call(f2); while(1) { } } call(f);", "var o = object(); o._exec = function(d) { while(1) { } }; o._data = 1; o();",
    "while(1) { while(1) { break; } }", "{ { while(1) { var x = 1; } } }", "function f() { return coroutine(f); } while(1) { f(); }", "while(1) { print(call(function() { return 1; })); }",
};
// recursion without end meets the built-in stack bound first: those programs get a small limit
static Prog prog(const string &src) {
    Prog p; p.src = src;
    Host h;
    if(!corpus::start(h, src)) return p;
    while(p.n < 6000 && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm)) { nkxVmIterate(h.vm, 1); p.n++; }
    p.endless = !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm);
    if(nkxVmHasErrors(h.vm)) p.n = 0;
    p.out = h.out; p.globals = h.globalsRepr(corpus::globalNames);
    return p;
}
static const uint32_t IV[] = {1, 2, 3, 7, 16, 64, 1024};
// before: the limit is set after that many instructions
static void inst(Case &c, const Prog &p, uint32_t iv, uint64_t limit, uint64_t before, int mode, bool aligned) {
    c.desc("limit %llu, interval %u, set after %llu instructions, %s; program of %llu instructions:\n%s", (unsigned long long)limit, iv, (unsigned long long)before, mode == 0 ? "stepped" : mode == 1 ? "in one go" : "in slices of 7", (unsigned long long)p.n, p.src.c_str());
    Host h;
    if(!corpus::start(h, p.src)) { c.fail("does not load"); return; }
    nkxSetGarbageCollectionInterval(h.vm, iv);
    if(nkxGetGarbageCollectionInterval(h.vm) != iv) c.fail("interval not taken over");
    for(uint64_t i = 0; i < before; i++) nkxVmIterate(h.vm, 1);
    nkxSetRemainingInstructionLimit(h.vm, limit);
    if(nkxGetRemainingInstructionLimit(h.vm) != limit) c.fail("limit not taken over");
    uint64_t total = p.n - before, exec = 0;
    if(mode == 0) {
        uint64_t bound = limit + iv + 5;
        while(!nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm)) {
            nkuint32_t l0 = nkxGetRemainingInstructionLimit(h.vm);
            nkxVmIterate(h.vm, 1); exec++;
            if(nkxGetRemainingInstructionLimit(h.vm) > l0) { c.fail("the remaining limit grew"); break; }
            if(exec > bound) { c.fail("still running after %llu instructions under a limit of %llu", (unsigned long long)exec, (unsigned long long)limit); break; }
        }
    } else if(mode == 1) nkxVmExecuteProgram(h.vm);
    else for(uint64_t i = 0; i <= (limit + iv) / 7 + 2 && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm); i++) nkxVmIterate(h.vm, 7);
    bool err = nkxVmHasErrors(h.vm), ended = nkxVmProgramHasEnded(h.vm);
    c.trans(exec ? exec : p.endless ? limit : total);
    // One interval of slack: always upwards; downwards only when the limit is set in the middle of an interval.
    uint64_t slack = aligned ? 0 : iv;
    if(err) {
        if(!p.endless && total + slack <= limit) c.fail("stopped although it needs %llu instructions and %llu are allowed: %s", (unsigned long long)total, (unsigned long long)limit, h.errors().c_str());
        if(mode == 0 && exec > limit + iv) c.fail("ran %llu instructions under a limit of %llu (interval %u)", (unsigned long long)exec, (unsigned long long)limit, iv);
        if(mode == 0 && exec + slack < limit && p.src.find("call(") == string::npos) c.fail("stopped after %llu instructions under a limit of %llu (interval %u)", (unsigned long long)exec, (unsigned long long)limit, iv);
        if(p.out.compare(0, h.out.size(), h.out) && !p.endless) c.fail("output before the stop is not a prefix of the program's output");
        int calls = h.nativeCalls; nkxVmIterate(h.vm, 50); nkxVmExecuteProgram(h.vm);
        if(h.nativeCalls != calls) c.fail("ran on after the limit error");
        c.outcome("stopped");
    } else {
        if(p.endless || total > limit + iv) c.fail("not stopped: needs %llu instructions, limit %llu, interval %u", (unsigned long long)total, (unsigned long long)limit, iv);
        else if(!ended) c.fail("neither ended nor stopped");
        else if(h.out != p.out || h.globalsRepr(corpus::globalNames) != p.globals) c.fail("behaves differently under a limit it stays within");
        c.outcome("ended");
    }
    c.nontrivial(hashStr(p.src) * 3 + limit * 64 + iv + before * 1000003);
    c.state(limit * 1024 + iv + (err ? 7777777 : 0));
    c.trace();
    h.destroy();
    for(auto &x : h.problems) c.fail("%s", x.c_str());
}

// -- stack limit ------------------------------------------------------------------------------------------------------
static const char *STACKY[] = {
    "1;", "var a = 1; print(a);", "print(1,2,3,4,5,6,7,8,9,10,11,12);", "print(1+(2+(3+(4+(5+(6+(7+8)))))));", "function f(x) { if(x < 1) { return 0; } return 1 + f(x - 1); } print(f(1), f(9), f(3));",
    "{ var a = 1; { var b = 2; { var c = 3; { var d = 4; print(a, b, c, d); } } } }", "var o = object(); o.f = function(s, x) { return s; }; print(o->f(1)); o._exec = function(d, x) { return x; }; o._data = 5; print(o(7));",
    "function f(a, b, c, d, e) { var g = a + b; var h = c + d; return print(g, h, e); } f(1, 2, 3, 4, 5);", "var a; a = 1 + 2 * (3 - 4 * (5 + a)); while(a < 20) { a = a + 3; { var b = a; } } print(a);", "for(var i = 0; i < 3; ++i) { for(var j = 0; j < 3; ++j) { print(i, j); } }",
};
struct StackRun { bool err; string out; string errs; uint64_t n; };
static StackRun stackRun(const string &src, int64_t limit, bool loadLimited = false) {
    StackRun r; Host h;
    corpus::start(h, src);
    if(limit >= 0) nkxSetMaxStackSize(h.vm, limit);
    if(limit >= 0 && nkxGetMaxStackSize(h.vm) != (nkuint32_t)limit) h.problems.push_back("limit not taken over");
    r.n = 0;
    while(r.n < 100000 && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm)) { nkxVmIterate(h.vm, 64); r.n += 64; }
    r.err = nkxVmHasErrors(h.vm); r.errs = h.errors(); r.out = h.out + (nkxVmHasErrors(h.vm) ? "" : "|" + h.globalsRepr(corpus::globalNames));
    h.destroy();
    if(!h.problems.empty()) r.errs += h.problems[0], r.err = true;
    return r;
}
static int64_t need(Case &c, const string &src, int64_t max = 4000) {
    // scanned, not searched: every limit below must fail, every limit from there on must not
    StackRun base = stackRun(src, -1);
    int64_t nd = -1;
    for(int64_t l = 0; l <= max; l++) {
        StackRun r = stackRun(src, l);
        c.trans();
        if(r.err) {
            if(nd >= 0) { c.fail("limit %lld fails although limit %lld is enough: %s", (long long)l, (long long)nd, r.errs.c_str()); return nd; }
            if(base.out.compare(0, r.out.size(), r.out)) { c.fail("limit %lld: output is not a prefix of the program's", (long long)l); return nd; }
        } else {
            if(nd < 0) nd = l;
            if(r.out != base.out || base.err) { c.fail("limit %lld: behaves differently from the unlimited program", (long long)l); return nd; }
            if(l >= nd + 24) return nd;
        }
    }
    if(nd < 0) c.fail("no limit up to %lld is enough", (long long)max);
    return nd;
}
static string args(int k) { string s; for(int i = 1; i <= k; i++) s += strf(i > 1 ? ",%d" : "%d", i); return s; }
static void stackProg(Case &c, uint64_t i) {
    c.descs(STACKY[i]);
    int64_t n = need(c, STACKY[i]);
    // a single literal needs exactly one value
    if(i == 0 && n != 1 && !c.failed()) c.fail("the statement '1;' needs a limit of %lld", (long long)n);
    c.state(n * 100 + i); c.nontrivial(i); c.trace();
}
// k more pending values need exactly k more
static void stackLinear(Case &c, uint64_t i) {
    int k = 1 + i / 4; int kind = i % 4;
    auto make = [&](int k) -> string {
        switch(kind) {
        case 0: return "print(" + args(k) + ");";
        case 1: { string s = "var z = 1; print("; for(int j = 0; j < k; j++) s += "z+("; s += "z"; return s + string(k, ')') + ");"; }
        case 2: { string s; for(int j = 0; j < k; j++) s += strf("{ var v%d = %d; ", j, j); s += "print(1);"; return s + string(k, '}'); }
        default: { string s = "function f("; for(int j = 0; j < k; j++) s += strf(j ? ", p%d" : "p%d", j); return s + ") { print(p0); } f(" + args(k) + ");"; }
        }
    };
    c.desc("%s with %d and %d values", kind == 0 ? "call arguments" : kind == 1 ? "pending operands" : kind == 2 ? "nested locals" : "function parameters", k, k + 1);
    int64_t a = need(c, make(k)), b = need(c, make(k + 1));
    if(c.failed()) return;
    if(kind == 1 && k < 2) return;
    if(b != a + 1) c.fail("one more value needs %lld instead of 1 (limits %lld and %lld)", (long long)(b - a), (long long)a, (long long)b);
    if(a < k) c.fail("%d values fit a limit of %lld", k, (long long)a);
    c.state(kind * 1000 + a); c.nontrivial(i); c.trace();
}
static string recur(int d, const string &in) { return strf("function f(x) { if(x < 1) { %s return 0; } return f(x - 1); } print(7); f(%d); print(8);", in.c_str(), d); }
static void stackMid(Case &c, uint64_t i) { // limit set by the host in the middle: at recursion depth d1, then d2 deeper from an empty stack
    Idx x(i); int d1 = 1 + x.pick(12), d2 = 1 + x.pick(12); int where = x.pick(2);
    int64_t n2 = need(c, strf("function f(x) { if(x < 1) { return 0; } return f(x - 1); } f(%d);", d2), 400);
    if(c.failed()) return;
    // where 0: at the statement boundary after the deep recursion has been left, 1: at the bottom of the recursion
    for(int64_t l = 0; l < n2 + 6; l++) {
        string src = where == 0 ? strf("function f(x) { if(x < 1) { return 0; } return f(x - 1); } f(%d); hook(); f(%d);", d1, d2)
                                : strf("function f(x) { if(x < 1) { return 0; } return f(x - 1); } function g(x) { if(x < 1) { hook(); return 0; } return g(x - 1); } g(%d); f(%d);", d1, d2);
        c.desc("stack limit %lld set %s, then depth %d:\n%s", (long long)l, where ? "at the bottom of a recursion" : "between statements", d2, src.c_str());
        Host h;
        h.onHook = [&](Host &x, NKVMFunctionCallbackData *) { nkxSetMaxStackSize(x.vm, l); };
        corpus::start(h, src);
        nkxVmExecuteProgram(h.vm);
        bool err = nkxVmHasErrors(h.vm);
        c.trans();
        if(where == 0 && err && l >= n2 + 8) c.fail("the remaining program needs %lld but was stopped", (long long)n2);
        if(l < n2 && !err) c.fail("the remaining program needs %lld values but was not stopped", (long long)n2);
        if(where == 0 && l >= n2 && err && l > n2 + 1) c.fail("the remaining program needs %lld values but was stopped: %s", (long long)n2, h.errors().c_str());
        h.destroy();
        if(c.failed()) return;
    }
    c.nontrivial(i); c.trace(); c.state(i);
}

// -- field limit ------------------------------------------------------------------------------------------------------
static const char *KEYS[] = {"1", "17", "\"a\"", "1.0", "o2"};
enum { NK = 5, FOPS = NK * 3 + 3 }; // store / store again / remove each key, new limit values
static void fields(Case &c, const vector<int> &ops, int limit, int api) {
    string d; std::map<int, int> m; bool over = false; int lim = limit; string body;
    for(int o : ops) {
        if(over) return; // nothing more happens
        if(o < NK * 2) { int k = o % NK; d += strf("o[%s]=%d; ", KEYS[k], o); if(!m.count(k) && (int)m.size() >= lim) over = true; else m[k] = o; body += strf("o[%s] = %d; ", KEYS[k], o); }
        else if(o < NK * 3) { int k = o % NK; d += strf("o[%s]=nil; ", KEYS[k]); m.erase(k); body += strf("o[%s] = nil; ", KEYS[k]); }
        else { lim = o - NK * 3 + (o == NK * 3 + 2 ? 2 : 0); d += strf("limit=%d; ", lim); body += strf("hook(%d); ", lim); }
    }
    c.desc("field limit %d, %s: %s", limit, api ? "through the host API" : "from script", d.c_str());
    Host h;
    h.onHook = [&](Host &x, NKVMFunctionCallbackData *a) { nkxSetMaxFieldsPerObject(x.vm, a->arguments[0].intData); };
    string src = "var o2 = object(); var o = object(); ";
    if(!api) src += body + " print(1);";
    if(!h.load(src)) { c.fail("does not load: %s", h.errors().c_str()); return; }
    nkxSetMaxFieldsPerObject(h.vm, limit);
    if(nkxGetMaxFieldsPerObject(h.vm) != (nkuint32_t)limit) c.fail("limit not taken over");
    h.run();
    NKValue o, o2, key[NK];
    { NKValue *g = nkxVmFindGlobalVariable(h.vm, nullptr, "o"); if(!g) { c.fail("no o"); return; } o = *g; o2 = *nkxVmFindGlobalVariable(h.vm, nullptr, "o2"); }
    memset(key, 0, sizeof key);
    nkxValueSetInt(h.vm, &key[0], 1); nkxValueSetInt(h.vm, &key[1], 17); nkxValueSetString(h.vm, &key[2], "a"); nkxValueSetFloat(h.vm, &key[3], 1.0f); key[4] = o2;
    if(api) for(size_t i = 0; i < ops.size(); i++) {
        int p = ops[i];
        if(p < NK * 2) {
            NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, &o, &key[p % NK], nkfalse);
            bool last = over && i + 1 == ops.size();
            if(!e != last) { c.fail("step %zu: %s", i, e ? "a field beyond the limit was added" : "a field within the limit was refused"); break; }
            if(e) nkxValueSetInt(h.vm, e, p);
        } else if(p < NK * 3) nkxVmObjectClearEntry(h.vm, &o, &key[p % NK]);
        else nkxSetMaxFieldsPerObject(h.vm, p - NK * 3 + (p == NK * 3 + 2 ? 2 : 0));
        c.trans();
    }
    if(nkxVmHasErrors(h.vm) != over) c.fail("%s", over ? "exceeding the limit raised no error" : ("error within the limit: " + h.errors()).c_str());
    if(!api && (h.out.find("i1;") != string::npos) == over) c.fail("the statement after the last operation %s", over ? "ran" : "did not run");
    if(nkxGetErrorCount(h.vm) > 1) c.fail("%u errors for one overstepped limit", nkxGetErrorCount(h.vm));
    // consistent afterwards: exactly the model's entries
    for(int round = 0; round < 2 && !c.failed(); round++) {
        if(nkxVmObjectGetSize(h.vm, &o) != m.size()) c.fail("object has %u fields, should have %zu", nkxVmObjectGetSize(h.vm, &o), m.size());
        for(int k = 0; k < NK; k++) {
            NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, &o, &key[k], nktrue);
            if(!e != !m.count(k) || (e && (e->type != NK_VALUETYPE_INT || e->intData != m[k]))) c.fail("field %s is %s", KEYS[k], !e ? "missing" : m.count(k) ? "wrong" : "present although refused");
        }
        // the object is still usable: remove everything and fill it again
        if(round == 0) { nkxSetMaxFieldsPerObject(h.vm, 3); for(int k = 0; k < NK; k++) nkxVmObjectClearEntry(h.vm, &o, &key[k]); m.clear();
            for(int k = 0; k < 3; k++) { NKValue *e = nkxVmObjectFindOrAddEntry(h.vm, &o, &key[k], nkfalse); if(!e) c.fail("refused after making room"); else nkxValueSetInt(h.vm, e, m[k] = k); } }
    }
    c.trace(); c.outcome(over ? "overstepped" : "within"); c.nontrivial(hashStr(d) * 8 + limit * 2 + api); c.state(m.size() * 10 + lim + (over ? 100 : 0) + hashStr(d) % 977 * 1000);
    h.destroy();
    for(auto &x : h.problems) c.fail("%s", x.c_str());
}

// -- limits in a session that goes on after them: every line of an interactive session has its own budget -----------
static const struct { const char *src; int n; } LINES[] = { // n: 0 endless, otherwise measured
    {"while(1) { }", 0}, {"{ var t = 0; while(1) { t = object(); } }", 0}, {"resume(coroutine(function() { while(1) { } }));", 0}, {"call(function() { while(1) { } });", 0},
    {"print(1);", 1}, {"{ var i; for(i = 0; i < 9; i = i + 1) { print(i); } }", 1},
};
enum { NLINES = 6, NBUDGET = 5 };
static uint64_t budget(int b, uint32_t iv) { return b == 0 ? 0 : b == 1 ? iv : b == 2 ? iv * 3 + 1 : b == 3 ? 40 : 400; }
struct Session {
    Host h; nkuint32_t at = 0;
    Session() { h.create(); h.compiler(); h.natives(); }
    // number of instructions run
    uint64_t line(const char *src, uint64_t max) {
        at = nkxCompilerGetInstructionWriteIndex(h.cs);
        nkxCompilerCompileScript(h.cs, src, "line");
        nkxCompilerPartiallyFinalize(h.cs);
        uint64_t n = 0;
        while(n < max && !nkxVmProgramHasEnded(h.vm) && !nkxVmHasErrors(h.vm)) { nkxVmIterate(h.vm, 1); n++; }
        return n;
    }
};
static void session(Case &c, const vector<int> &ops, uint32_t iv) {
    static const vector<uint64_t> need = [] { vector<uint64_t> v; for(auto &l : LINES) { if(!l.n) { v.push_back(0); continue; } Session s; v.push_back(s.line(l.src, 100000)); s.h.finalize(); s.h.destroy(); } return v; }();
    string d;
    for(int o : ops) d += strf("limit %llu: %s\n", (unsigned long long)budget(o % NBUDGET, iv), LINES[o / NBUDGET].src);
    c.desc("interval %u, a session of lines each with its own limit:\n%s", iv, d.c_str());
    Session s; nkxSetGarbageCollectionInterval(s.h.vm, iv);
    for(size_t k = 0; k < ops.size() && !c.failed(); k++) {
        int l = ops[k] / NBUDGET; uint64_t lim = budget(ops[k] % NBUDGET, iv); size_t out = s.h.out.size();
        nkxSetRemainingInstructionLimit(s.h.vm, lim);
        uint64_t n = s.line(LINES[l].src, lim + iv + 600);
        bool err = nkxVmHasErrors(s.h.vm);
        c.trans(n);
        if(err) {
            if(LINES[l].n && need[l] + iv <= lim) c.fail("line %zu stopped although it needs %llu instructions and %llu are allowed: %s", k, (unsigned long long)need[l], (unsigned long long)lim, s.h.errors().c_str());
            if(n > lim + iv) c.fail("line %zu ran %llu instructions under a limit of %llu", k, (unsigned long long)n, (unsigned long long)lim);
            if(n + iv < lim && l != 3) c.fail("line %zu stopped after %llu instructions under a limit of %llu", k, (unsigned long long)n, (unsigned long long)lim);
            if(s.h.errors().find("limit") == string::npos) c.fail("line %zu stopped by: %s", k, s.h.errors().c_str());
            nkxCompilerClearReplErrorState(s.h.cs, s.at);
            if(nkxVmHasErrors(s.h.vm)) c.fail("the error cannot be cleared");
            c.outcome("stopped");
        } else {
            if(!LINES[l].n) c.fail("line %zu without end still runs after %llu instructions under a limit of %llu", k, (unsigned long long)n, (unsigned long long)lim);
            else if(need[l] > lim + iv) c.fail("line %zu not stopped: needs %llu instructions, limit %llu", k, (unsigned long long)need[l], (unsigned long long)lim);
            else if(!nkxVmProgramHasEnded(s.h.vm)) c.fail("line %zu neither ended nor stopped", k);
            else if(s.h.out.size() == out) c.fail("line %zu printed nothing", k);
            c.outcome("ended");
        }
        c.state(l * 1000 + lim + (err ? 500000 : 0) + iv * 1000003);
    }
    c.nontrivial(hashStr(d) + iv); c.trace();
    s.h.finalize(); s.h.destroy();
    for(auto &x : s.h.problems) c.fail("%s", x.c_str());
}

void define(Registry &r) {
    r.level = "model_checking";
    r.rule = "instruction limits: every limit around every multiple of the checking interval and the program's length, set before or during the run, stepped, sliced and in one go, and set anew for every line of a session that goes on after the limit was reached; stack limits: all limits from 0 until well past the first sufficient one, per program and program family; field limits: all short sequences of stores, removals and limit changes against a map of bounded size";
    bool th = r.thorough();
    for(auto &p : corpus::without(corpus::NESTED | corpus::FAILS)) { Prog q = prog(p.src); if(q.n && !q.endless) gProgs.push_back(q); }
    size_t nFinite = gProgs.size();
    for(auto s : ENDLESS) { { Host h; if(!corpus::start(h, s)) { fprintf(stderr, "harness: does not load: %s: %s\n", s, h.errors().c_str()); abort(); } } Prog q; q.src = s; q.endless = true; q.n = ~0ull >> 2; gProgs.push_back(q); }
    struct I { int p; uint32_t iv; uint64_t lim, before; int mode; bool aligned; };
    static vector<I> is;
    for(size_t p = 0; p < gProgs.size(); p++) for(uint32_t iv : IV) {
        const Prog &q = gProgs[p];
        std::set<uint64_t> ls;
        if(q.endless) for(uint64_t l : {0, 1, 2, 3, 5, 8, 15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 300, 1000, 1023, 1024, 1025, 1500}) ls.insert(l);
        else {
            uint64_t N = q.n;
            for(uint64_t b : {(uint64_t)0, N / 3, N / 2, N, N - N % iv, N + iv, (uint64_t)iv, (uint64_t)iv * 2}) for(int dlt = -2; dlt <= 2; dlt++) if((int64_t)b + dlt >= 0) ls.insert(b + dlt);
            if(th) for(uint64_t l = 0; l <= N + iv + 2; l++) ls.insert(l);
        }
        for(uint64_t l : ls) for(int mode = 0; mode < 3; mode++) {
            if(!th && mode && (l * 7 + iv) % 3 != (uint64_t)mode) continue;
            is.push_back({(int)p, iv, l, 0, mode, true});
        }
        if(!q.endless) for(uint64_t before : {(uint64_t)1, q.n / 4, q.n / 2, q.n - 1}) for(int64_t rel : {-70, -2, -1, 0, 1, 2, 70}) {
            int64_t l = (int64_t)(q.n - before) + rel; if(l < 0 || before >= q.n) continue;
            is.push_back({(int)p, iv, (uint64_t)l, before, 0, before % iv == 0});
        }
    }
    (void)nFinite;
    r.add("instructions", is.size(), [](uint64_t i, Case &c) { auto &x = is[i]; const Prog &p = gProgs[x.p]; inst(c, p, x.iv, x.lim, x.before, x.mode, x.aligned); if(i % 3000 == 0) c.sample(strf("limit %llu interval %u: %s", (unsigned long long)x.lim, x.iv, p.src.substr(0, 100).c_str())); }).cpuSeconds = 20;
    { static const uint32_t SV[] = {1, 3, 16, 64, 1024}; int SD = th ? 3 : 2; uint64_t ns = seqCount(NLINES * NBUDGET, SD);
      r.add("sessions", ns * 5, [](uint64_t i, Case &c) { session(c, seqDecode(i / 5, NLINES * NBUDGET), SV[i % 5]); }).cpuSeconds = 20; }
    r.add("interval zero", 20, [](uint64_t i, Case &c) {
        c.desc("collection interval 0, limit %llu, endless program", (unsigned long long)i * 50);
        Host h; corpus::start(h, "var n = 0; while(1) { n = n + 1; }");
        nkxSetGarbageCollectionInterval(h.vm, 0); nkxSetRemainingInstructionLimit(h.vm, i * 50);
        for(int k = 0; k < 3000 && !nkxVmHasErrors(h.vm); k++) nkxVmIterate(h.vm, 1);
        if(!nkxVmHasErrors(h.vm)) c.fail("not stopped within 3000 instructions");
        c.trace(); c.nontrivial(i); c.state(i);
    });
    r.add("stack", sizeof STACKY / sizeof *STACKY, [](uint64_t i, Case &c) { stackProg(c, i); }).cpuSeconds = 60;
    r.add("stack values", 4 * (th ? 70 : 34), [](uint64_t i, Case &c) { stackLinear(c, i); }).cpuSeconds = 120;
    r.add("stack later", 12 * 12 * 2, [](uint64_t i, Case &c) { stackMid(c, i); }).cpuSeconds = 60;
    r.add("coroutine stack", 40, [](uint64_t i, Case &c) { // every coroutine has its own stack under the same limit
        int d = i + 1;
        string f = "function f(x) { if(x < 1) { yield(1); return 0; } return f(x - 1); } ";
        int64_t n1 = need(c, f + strf("var c = coroutine(f, %d); resume(c); resume(c);", d), 400), n3 = need(c, f + strf("var c = coroutine(f, %d); var e = coroutine(f, %d); resume(c); resume(e); resume(c); resume(e);", d, d), 400);
        if(n1 != n3 && !c.failed()) c.fail("two coroutines of depth %d need a limit of %lld, one needs %lld", d, (long long)n3, (long long)n1);
        c.trace(); c.nontrivial(i); c.state(n1);
    }).cpuSeconds = 60;
    r.add("runaway", 4 * 6, [](uint64_t i, Case &c) { // recursion and argument growth without a stack limit end in an error, not in memory corruption
        static const char *R[] = {"function f(x) { return f(x + 1); } f(0);", "function f(x) { var a = x; var b = f(a + 1); return a + b; } f(0);", "function f(a, b, c, d) { return 1 + f(a, b, c, d); } f(1, 2, 3, 4);", "var o = object(); o.f = function(s) { return s->f(); }; o->f();", "function f() { call(f); } f();", "function f() { return resume(coroutine(f)); } f();"};
        static const int64_t L[] = {-1, 10, 100, 70000};
        c.desc("stack limit %lld: %s", (long long)L[i % 4], R[i / 4]);
        Host h; corpus::start(h, R[i / 4]);
        if(L[i % 4] >= 0) nkxSetMaxStackSize(h.vm, L[i % 4]);
        nkxSetRemainingInstructionLimit(h.vm, 3000000); nkxSetMaxAllocatedMemory(h.vm, 100 << 20);
        nkxVmExecuteProgram(h.vm);
        if(!nkxVmHasErrors(h.vm) && i / 4 != 4) c.fail("endless recursion did not end in an error"); // call() stops nesting by itself
        h.destroy();
        c.trace(); c.nontrivial(i); c.state(i);
    }).cpuSeconds = 60;
    int depth = th ? 5 : 4;
    uint64_t n = seqCount(FOPS, depth);
    r.add("fields", n * 2, [](uint64_t i, Case &c) { uint64_t s = i / 2; auto v = seqDecode(s, FOPS); fields(c, v, s * 2654435761u >> 8 & 3, i & 1); });
    uint64_t n3 = seqCount(FOPS, 3);
    r.add("fields all limits", n3 * 2 * 5, [](uint64_t i, Case &c) { fields(c, seqDecode(i / 10, FOPS), i / 2 % 5, i & 1); });
    r.bounds = strf("%zu programs (%zu without end) x %zu intervals, %zu instruction limits; sessions of up to %d lines (%d lines, %d budgets, 5 intervals); %zu programs and 4 families up to %d values x all stack limits; field sequences to length %d", gProgs.size(), gProgs.size() - nFinite, sizeof IV / sizeof *IV, is.size(), th ? 3 : 2, (int)NLINES, (int)NBUDGET, sizeof STACKY / sizeof *STACKY, th ? 71 : 35, depth);
    r.assumptions = {"a limit set in the middle of a checking interval may take effect up to one interval early, as the documented granularity allows", "the built-in bound of 65536 stack values applies besides the host's"};
}
